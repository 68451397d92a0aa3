//! The symbolic interpreter.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

pub const STACK_BASE: u64 = 0x4000_0000;
pub const STACK_END: u64 = 0x7000_0000;
pub const HEAP_BASE: u64 = 0x8000_0000;
pub const HEAP_END: u64 = 0x1_f000_0000;

pub type Dom = [u64; 4];

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub ip: *const Inst,
    pub block: u32,
    pub regs: Vec<V>,
    pub sp: u64,
    pub dst: u32,
    pub ret_edge: Option<&'static Edge>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub heap: u64,
    pub last_alloc: u64,
    pub sp: u64,
    pub pc: Vec<E>,
    pub dom: FxMap<u32, Dom>,
    pub ent: Vec<u64>,
    /// variables whose domain has one value
    pub fixed: FxMap<u32, u8>,
    /// conditions settled by the path condition
    pub known: std::cell::RefCell<FxMap<E, bool>>,
    pub model: Rc<Model>,
    pub conc: FxMap<E, u128>,
    pub inputs: Rc<Vec<(String, u32)>>,
    pub notes: Rc<Vec<String>>,
    pub steps: u64,
    pub merge: bool,
    pub merges_off: u32,
    pub panic_ok: bool,
    pub forks: u32,
    pub out: Rc<Vec<u8>>,
    pub unknown: bool,
    pub files: Rc<BTreeMap<String, (u64, u64)>>,
    pub fds: Rc<BTreeMap<i32, (String, u64)>>,
}

pub enum Ctl {
    Dead,        // the path ended (assumption false, finished, violation with nothing left)
    Err(String), // engine cannot continue
}
type Rs<T> = Result<T, Ctl>;

#[derive(Clone, Copy, PartialEq)]
pub enum Stop {
    None,
    Block(usize, u32),
    Ret(usize),
}

#[derive(Default, Clone)]
pub struct Violation {
    pub id: String,
    pub inputs: Vec<(String, u16, u128)>,
    pub notes: Vec<String>,
    pub maybe: bool,
}

pub struct Cfg {
    pub max_steps: u64,
    pub deadline: Instant,
    pub rlimit: u32,
    pub workers: u32,
    pub stop_first: bool,
    pub hash_nop: bool,
    pub max_paths: u64,
    pub trace: bool,
    pub outdir: String,
    pub redirects: Vec<(String, String)>,
    pub nops: Vec<String>,
    pub vseed: u64,
    pub fix: Vec<(String, u64)>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub panics_ok: u64,
    pub insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub domdec: u64,
    pub enumdec: u64,
    pub checks: BTreeMap<String, (u64, u64, u64)>, // evaluated, solver-decided, inconclusive
    pub covers: BTreeMap<String, u64>,
    pub errors: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub sites: FxMap<(u32, u32), u64>,
    pub qsites: FxMap<(u32, u32), u64>,
    pub unk_branch: u64,
}

/// handlers for functions without a body
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    Unset,
    Body,
    Nop,
    Ret0,
    Ret1,
    Unknown,
    Panic,
    Abort,
    Exit,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
    Malloc,
    Calloc,
    Realloc,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    Write,
    Writev,
    Read,
    Open,
    Close,
    Stat,
    Lseek,
    Getrandom,
    ClockGettime,
    Errno,
    GetEnv,
    Sysconf,
    PthreadKey,
    PthreadGetattr,
    AttrGetstack,
    PosixMemalign,
    PsmSp,
    Sigaltstack,
    // intrinsics
    IMemcpy,
    IMemset,
    Fshl,
    Fshr,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UCmp,
    SCmp,
    AddCarry,
    SubBorrow,
    Trap,
    TlsAddr,
    Expect,
    RedOr,
    RedAnd,
    RedAdd,
    StackSave,
    StackRestore,
    IsConst,
    Ceil,
    FLog2,
    FFloor,
    FTrunc,
    FRound,
    FAbs,
    // harness interface
    VSym,
    VAssume,
    VCheck,
    VPossible,
    VConc,
    VMerge,
    VCover,
    VNote,
    VFail,
    VPanicOk,
    VIntNew,
    VIntConst,
    VIntFrom,
    VIntAdd,
    VIntMul,
    VIntLe,
    VIntEq,
    VIntIte,
    VNative,
    VFile,
    VOut,
    VDone,
    VSeed,
}

pub const OVERRIDES: &[(H, &[&str])] = &[
    (H::Panic, &["4core9panicking9panic_fmt"]),
    (H::Panic, &["4core9panicking18panic_nounwind_fmt"]),
    (H::Panic, &["3std9panicking20rust_panic_with_hook"]),
    (H::Panic, &["3std9panicking13begin_panic"]),
    (H::Panic, &["5alloc5alloc18handle_alloc_error"]),
    (H::Panic, &["5alloc7raw_vec17capacity_overflow"]),
    (H::Abort, &["3std7process5abort"]),
    (H::Nop, &["3std2io5stdio7__eprint"]),
    (H::Nop, &["3std2io5stdio7_eprint"]),
    (H::RustAlloc, &["7___rustc", "12___rust_alloc"]),
    (H::RustAllocZ, &["7___rustc", "19___rust_alloc_zeroed"]),
    (H::RustDealloc, &["7___rustc", "14___rust_dealloc"]),
    (H::RustRealloc, &["7___rustc", "14___rust_realloc"]),
    (H::Nop, &["7___rustc", "__rust_no_alloc_shim_is_unstable"]),
];

/// every `*`-separated piece of `pat` occurs in `name`, in that order
pub fn glob(name: &str, pat: &str) -> bool {
    let mut p = 0;
    let pat = match pat.strip_prefix('^') {
        Some(q) if name.starts_with(q.split('*').next().unwrap()) => q,
        Some(_) => return false,
        None => pat,
    };
    for s in pat.split('*') {
        match name[p..].find(s) {
            Some(k) => p += k + s.len(),
            None => return false,
        }
    }
    true
}

pub fn override_for(name: &str) -> Option<H> {
    for (h, pats) in OVERRIDES {
        let mut p = 0;
        let mut ok = true;
        for s in pats.iter() {
            match name[p..].find(s) {
                Some(k) => p += k + s.len(),
                None => {
                    ok = false;
                    break;
                }
            }
        }
        // exact last component: nothing that names another item may follow
        if ok && (pats.len() == 2 || name[p..].is_empty() || !name[p..].contains(|c: char| c == '{')) {
            if pats.len() == 2 {
                return Some(*h);
            }
            // `..9panic_fmt` must be the last path component of the symbol itself
            let rest = &name[p..];
            if rest.is_empty() || rest.starts_with('B') || rest.starts_with('C') || rest.starts_with('R') || rest.starts_with('e') || rest.starts_with("IN") {
                if name.starts_with("_RNv") || name.starts_with("_RIN") {
                    return Some(*h);
                }
            }
        }
    }
    None
}

fn classify(n: &str) -> H {
    if n.contains("3std2io5stdio6__print") {
        return H::Nop;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("lifetime") || p("experimental.noalias") || p("assume") || p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("dbg") || p("invariant") || p("va_") || p("pseudoprobe") {
            H::Nop
        } else if p("memcpy") || p("memmove") {
            H::IMemcpy
        } else if p("memset") {
            H::IMemset
        } else if p("fshl") {
            H::Fshl
        } else if p("fshr") {
            H::Fshr
        } else if p("cttz") {
            H::Cttz
        } else if p("ctlz") {
            H::Ctlz
        } else if p("ctpop") {
            H::Ctpop
        } else if p("bswap") {
            H::Bswap
        } else if p("bitreverse") {
            H::Bitrev
        } else if p("umax") {
            H::UMax
        } else if p("umin") {
            H::UMin
        } else if p("smax") {
            H::SMax
        } else if p("smin") {
            H::SMin
        } else if p("abs") {
            H::Abs
        } else if p("uadd.with") {
            H::UAddO
        } else if p("usub.with") {
            H::USubO
        } else if p("umul.with") {
            H::UMulO
        } else if p("sadd.with") {
            H::SAddO
        } else if p("ssub.with") {
            H::SSubO
        } else if p("smul.with") {
            H::SMulO
        } else if p("uadd.sat") {
            H::UAddSat
        } else if p("usub.sat") {
            H::USubSat
        } else if p("sadd.sat") {
            H::SAddSat
        } else if p("ssub.sat") {
            H::SSubSat
        } else if p("ucmp") {
            H::UCmp
        } else if p("scmp") {
            H::SCmp
        } else if p("x86.addcarry") {
            H::AddCarry
        } else if p("x86.subborrow") {
            H::SubBorrow
        } else if p("trap") || p("ubsantrap") {
            H::Trap
        } else if p("threadlocal.address") {
            H::TlsAddr
        } else if p("expect") {
            H::Expect
        } else if p("vector.reduce.or") {
            H::RedOr
        } else if p("vector.reduce.and") {
            H::RedAnd
        } else if p("vector.reduce.add") {
            H::RedAdd
        } else if p("stacksave") {
            H::StackSave
        } else if p("stackrestore") {
            H::StackRestore
        } else if p("is.constant") {
            H::IsConst
        } else if p("ceil.f64") {
            H::Ceil
        } else if p("log2.f64") {
            H::FLog2
        } else if p("floor.f64") {
            H::FFloor
        } else if p("trunc.f64") {
            H::FTrunc
        } else if p("round.f64") {
            H::FRound
        } else if p("fabs.f64") {
            H::FAbs
        } else {
            H::Unknown
        };
    }
    match n {
        "log2" => H::FLog2,
        "ceil" => H::Ceil,
        "floor" => H::FFloor,
        "vrf_sym" => H::VSym,
        "vrf_assume" => H::VAssume,
        "vrf_check" => H::VCheck,
        "vrf_possible" => H::VPossible,
        "vrf_concretize" => H::VConc,
        "vrf_merge" => H::VMerge,
        "vrf_cover" => H::VCover,
        "vrf_note" => H::VNote,
        "vrf_fail" => H::VFail,
        "vrf_panic_ok" => H::VPanicOk,
        "vrf_int_new" => H::VIntNew,
        "vrf_int_const" => H::VIntConst,
        "vrf_int_from" => H::VIntFrom,
        "vrf_int_add" => H::VIntAdd,
        "vrf_int_mul" => H::VIntMul,
        "vrf_int_le" => H::VIntLe,
        "vrf_int_eq" => H::VIntEq,
        "vrf_int_ite" => H::VIntIte,
        "vrf_native" => H::VNative,
        "vrf_file" => H::VFile,
        "vrf_stdout" => H::VOut,
        "vrf_done" => H::VDone,
        "vrf_seed" => H::VSeed,
        "malloc" => H::Malloc,
        "calloc" => H::Calloc,
        "realloc" => H::Realloc,
        "free" => H::Nop,
        "memcmp" | "bcmp" => H::Memcmp,
        "memcpy" | "memmove" => H::Memcpy,
        "memset" => H::Memset,
        "strlen" => H::Strlen,
        "write" => H::Write,
        "writev" => H::Writev,
        "read" => H::Read,
        "open64" | "open" => H::Open,
        "close" | "fcntl" => H::Close,
        "fstat64" | "stat64" | "statx" => H::Stat,
        "lseek64" => H::Lseek,
        "getrandom" | "syscall" => H::Getrandom,
        "clock_gettime" => H::ClockGettime,
        "__errno_location" => H::Errno,
        "getenv" => H::GetEnv,
        "sysconf" => H::Sysconf,
        "pthread_key_create" => H::PthreadKey,
        "pthread_getattr_np" => H::PthreadGetattr,
        "pthread_attr_getstack" => H::AttrGetstack,
        "posix_memalign" => H::PosixMemalign,
        "rust_psm_stack_pointer" => H::PsmSp,
        "sigaltstack" => H::Sigaltstack,
        "rust_psm_stack_direction" => H::Ret1,
        "pthread_setspecific" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_key_delete"
        | "__cxa_thread_atexit_impl" | "sched_yield" | "signal" | "sigaction" | "munmap" | "mprotect" | "poll" | "pthread_getspecific"
        | "getauxval" => H::Ret0,
        "gettid" | "pthread_self" => H::Ret1,
        "abort" => H::Abort,
        "exit" | "_exit" => H::Exit,
        _ => match override_for(n) {
            Some(h) => h,
            None => H::Unknown,
        },
    }
}

pub struct Ex<'m> {
    pub m: &'m Module,
    pub z: Z3,
    pub cfg: Cfg,
    pub st: Stats,
    hs: Vec<H>,
    hredir: Vec<u32>,
    tlb: Box<Tlb>,
    tab: FxMap<E, Rc<Dom>>,
    domx: FxMap<(u32, Dom), E>,
    redmemo: FxMap<(E, Vec<(u32, u8)>), E>,
    red_fixed: FxMap<u32, u8>,
    red_sub: FxMap<u32, E>,
    vvars: FxMap<E, Rc<Vec<u32>>>,
    hasint: FxMap<E, bool>,
    symvars: FxMap<(String, u16), E>,
    pub touched: Vec<bool>,
    pool: Vec<Vec<V>>,
    pub shared: *mut Shared,
    kids: Vec<i32>,
    nest: u32,
    tick: u64,
    stopping: bool,
}

#[repr(C)]
pub struct Shared {
    pub active: std::sync::atomic::AtomicU32,
    pub stop: std::sync::atomic::AtomicU32,
    pub paths: std::sync::atomic::AtomicU64,
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub fn shared_page() -> *mut Shared {
    unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut Shared }
}

const FULL: Dom = [u64::MAX; 4];
fn dand(a: &Dom, b: &Dom) -> Dom {
    std::array::from_fn(|i| a[i] & b[i])
}
fn dandn(a: &Dom, b: &Dom) -> Dom {
    std::array::from_fn(|i| a[i] & !b[i])
}
fn dempty(a: &Dom) -> bool {
    a.iter().all(|x| *x == 0)
}
fn dhas(a: &Dom, v: u32) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
fn dfirst(a: &Dom) -> u32 {
    for i in 0..4 {
        if a[i] != 0 {
            return i as u32 * 64 + a[i].trailing_zeros();
        }
    }
    0
}
fn dfull(w: u16) -> Dom {
    let n = 1u32 << w;
    let mut d = [0; 4];
    for v in 0..n {
        d[(v >> 6) as usize] |= 1 << (v & 63);
    }
    d
}

#[inline(always)]
pub fn ve(v: &V, w: u16) -> E {
    match v {
        V::C(c) => konst(*c as u128, w),
        V::W(c) => konst(**c, w),
        V::S(e) => *e,
        V::A(_) => panic!("aggregate where scalar expected"),
    }
}
#[inline]
pub fn ev(e: E) -> V {
    match cval(e) {
        Some(c) => mkc(c, width(e)),
        None => V::S(e),
    }
}

impl<'m> Ex<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Ex<'m> {
        let n = m.funcs.len();
        let mut ex = Ex {
            m,
            z: Z3::new(cfg.rlimit),
            cfg,
            st: Stats::default(),
            hs: vec![H::Unset; n],
            hredir: vec![u32::MAX; n],
            tlb: Tlb::new(),
            tab: Default::default(),
            domx: Default::default(),
            redmemo: Default::default(),
            red_fixed: Default::default(),
            red_sub: Default::default(),
            vvars: Default::default(),
            hasint: Default::default(),
            symvars: Default::default(),
            touched: vec![false; n],
            pool: vec![],
            shared: shared_page(),
            kids: vec![],
            nest: 0,
            tick: 0,
            stopping: false,
        };
        for pat in ex.cfg.nops.clone() {
            for (i, f) in m.funcs.iter().enumerate() {
                if glob(&f.name, pat.trim_start_matches('=')) {
                    ex.hs[i] = if pat.starts_with('=') { H::Ret0 } else { H::Nop };
                }
            }
        }
        let reds = ex.cfg.redirects.clone();
        for (pat, to) in &reds {
            let ti = *m.fmap.get(to.as_str()).unwrap_or_else(|| {
                eprintln!("redirect target {} not found", to);
                std::process::exit(3)
            });
            for (i, f) in m.funcs.iter().enumerate() {
                if glob(&f.name, pat) {
                    ex.hredir[i] = ti;
                }
            }
        }
        ex
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for i in 0..self.m.globals.len() {
            let b = self.m.global_init(i);
            let a = self.m.globals[i].addr;
            if b.iter().any(|&c| c != 0) {
                if mem.write_bytes(&mut self.tlb, a, &b).is_err() {
                    eprintln!("global out of address space");
                    std::process::exit(3)
                }
            }
        }
        let fi = match self.m.fmap.get(entry) {
            Some(&f) => f,
            None => {
                eprintln!("no entry {}", entry);
                std::process::exit(3)
            }
        };
        let f = self.m.func(fi).expect("entry has no body");
        self.touched[fi as usize] = true;
        let fr = Frame {
            func: f,
            ip: f.blocks[0].as_ptr(),
            block: 0,
            regs: vec![V::C(0); f.nregs as usize],
            sp: STACK_BASE,
            dst: u32::MAX,
            ret_edge: None,
        };
        State {
            frames: vec![fr],
            mem,
            heap: HEAP_BASE,
            last_alloc: 0,
            sp: STACK_BASE + 4096,
            pc: vec![],
            dom: Default::default(),
            ent: vec![],
            fixed: Default::default(),
            known: Default::default(),
            model: Rc::new(vec![]),
            conc: Default::default(),
            inputs: Default::default(),
            notes: Default::default(),
            steps: 0,
            merge: false,
            merges_off: 0,
            panic_ok: false,
            forks: 0,
            out: Default::default(),
            unknown: false,
            files: Default::default(),
            fds: Default::default(),
        }
    }

    fn clone_state(&mut self, s: &State) -> Box<State> {
        self.tlb.flush();
        Box::new(s.clone())
    }

    // ------------------------------------------------------------------ constraints

    fn table(&mut self, e: E, var: u32) -> Rc<Dom> {
        if let Some(t) = self.tab.get(&e) {
            return t.clone();
        }
        let w = ctx().vars[var as usize].0;
        let mut d = [0u64; 4];
        let mut m: Model = vec![0; var as usize + 1];
        for v in 0..(1u32 << w) {
            m[var as usize] = v as u128;
            if eval(e, &m) != 0 {
                d[(v >> 6) as usize] |= 1 << (v & 63);
            }
        }
        let r = Rc::new(d);
        self.tab.insert(e, r.clone());
        r
    }
    fn dom_of(&self, st: &State, v: u32) -> Dom {
        st.dom.get(&v).copied().unwrap_or_else(|| dfull(ctx().vars[v as usize].0))
    }
    fn small(e: E) -> Option<u32> {
        let s = support(e);
        if s != 0 && s != MULTI {
            let v = s - 1;
            if ctx().vars[v as usize].0 <= 8 {
                return Some(v);
            }
        }
        None
    }
    fn entangled(st: &State, v: u32) -> bool {
        let i = (v >> 6) as usize;
        i < st.ent.len() && st.ent[i] >> (v & 63) & 1 == 1
    }
    fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vvars.get(&e) {
            return v.clone();
        }
        let mut o = vec![];
        vars_of(e, &mut o);
        let r = Rc::new(o);
        self.vvars.insert(e, r.clone());
        r
    }
    fn has_int(&mut self, e: E) -> bool {
        if let Some(&b) = self.hasint.get(&e) {
            return b;
        }
        let n = node(e);
        let b = match n.op {
            Op::IVar | Op::IConst | Op::IFromU | Op::IFromS | Op::IAdd | Op::IMul | Op::ILe | Op::IEq | Op::IIte | Op::IDivE => true,
            Op::Const | Op::Var => false,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.has_int(E(n.a)),
            Op::Ite => self.has_int(E(n.a)) || self.has_int(E(n.b)) || self.has_int(E(n.c)),
            _ => self.has_int(E(n.a)) || self.has_int(E(n.b)),
        };
        self.hasint.insert(e, b);
        b
    }
    fn dom_expr(&mut self, v: u32, d: &Dom) -> E {
        if let Some(&e) = self.domx.get(&(v, *d)) {
            return e;
        }
        let w = ctx().vars[v as usize].0;
        let x = ctx().var_node(v, w);
        let mut r = ff();
        let n = 1u32 << w;
        let mut i = 0;
        while i < n {
            if dhas(d, i) {
                let lo = i;
                while i + 1 < n && dhas(d, i + 1) {
                    i += 1;
                }
                let c = if lo == i {
                    cmp(Op::Eq, x, konst(lo as u128, w))
                } else {
                    bin(Op::And, cmp(Op::Ule, konst(lo as u128, w), x), cmp(Op::Ule, x, konst(i as u128, w)))
                };
                r = bin(Op::Or, r, c);
            }
            i += 1;
        }
        self.domx.insert((v, *d), r);
        r
    }
    /// solve pc /\ extra; the model covers all variables
    fn solve(&mut self, st: &State, extra: &[E]) -> (Res, Option<Rc<Model>>) {
        self.solve_x(st, extra, false)
    }
    fn solve_x(&mut self, st: &State, extra: &[E], for_check: bool) -> (Res, Option<Rc<Model>>) {
        // slice
        let mut need: Vec<u32> = vec![];
        for &e in extra {
            need.extend(self.vars(e).iter());
        }
        let nv = ctx().vars.len();
        let mut inset = vec![false; nv];
        let mut todo = need;
        let mut keep = vec![false; st.pc.len()];
        let pvs: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|&e| self.vars(e)).collect();
        let mut byvar: FxMap<u32, Vec<usize>> = Default::default();
        for (i, p) in pvs.iter().enumerate() {
            for &v in p.iter() {
                byvar.entry(v).or_default().push(i);
            }
        }
        let mut vs = vec![];
        while let Some(v) = todo.pop() {
            if inset[v as usize] {
                continue;
            }
            inset[v as usize] = true;
            vs.push(v);
            if let Some(l) = byvar.get(&v) {
                for &i in l {
                    if !keep[i] {
                        keep[i] = true;
                        for &u in pvs[i].iter() {
                            if !inset[u as usize] {
                                todo.push(u);
                            }
                        }
                    }
                }
            }
        }
        let mut q: Vec<E> = vec![];
        vs.sort_unstable();
        for i in 0..st.pc.len() {
            if keep[i] {
                q.push(st.pc[i]);
            }
        }
        for &v in &vs {
            if let Some(d) = st.dom.get(&v) {
                let d = *d;
                let e = self.dom_expr(v, &d);
                if cval(e) != Some(1) {
                    q.push(e);
                }
            }
        }
        // few values in all: evaluate every combination
        if !for_check {
            let mut prod = 1u64;
            for &v in &vs {
                let w = ctx().vars[v as usize].0;
                if w > 8 {
                    prod = u64::MAX;
                    break;
                }
                let d = self.dom_of(st, v);
                prod = prod.saturating_mul(d.iter().map(|x| x.count_ones() as u64).sum());
                if prod > 1024 {
                    break;
                }
            }
            if prod <= 1024 {
                self.st.enumdec += 1;
                let doms: Vec<Vec<u8>> = vs
                    .iter()
                    .map(|&v| {
                        let d = self.dom_of(st, v);
                        (0..256u32).filter(|&x| dhas(&d, x)).map(|x| x as u8).collect()
                    })
                    .collect();
                let mut m: Model = (*st.model).clone();
                m.resize(ctx().vars.len().max(m.len()), 0);
                let mut idx = vec![0usize; vs.len()];
                'all: loop {
                    for (i, &v) in vs.iter().enumerate() {
                        m[v as usize] = doms[i][idx[i]] as u128;
                    }
                    if eval_all(q.iter().chain(extra.iter()), &m) {
                        return (Res::Sat, Some(Rc::new(m)));
                    }
                    let mut i = 0;
                    loop {
                        if i == vs.len() {
                            break 'all;
                        }
                        idx[i] += 1;
                        if idx[i] < doms[i].len() {
                            break;
                        }
                        idx[i] = 0;
                        i += 1;
                    }
                }
                return (Res::Unsat, None);
            }
        }
        let mut wi = false;
        for &e in q.iter().chain(extra.iter()) {
            wi |= self.has_int(e);
        }
        let t0 = self.z.time_ns;
        let (r, m) = self.z.check(&q, extra, wi);
        if let Some(f) = st.frames.last() {
            *self.st.qsites.entry((f.func.idx, wi as u32)).or_default() += (self.z.time_ns - t0) / 1000;
        }
        let m = m.map(|m| {
            let mut n = (*st.model).clone();
            n.resize(m.len().max(n.len()), 0);
            for &v in &vs {
                n[v as usize] = m[v as usize];
            }
            Rc::new(n)
        });
        (r, m)
    }
    fn evalm(&self, st: &State, e: E) -> u128 {
        eval(e, &st.model)
    }
    /// which truth values of `c` are possible?  (false_model, true_model)
    fn decide(&mut self, st: &State, c: E) -> (Option<Rc<Model>>, Option<Rc<Model>>) {
        let c = self.reduce(st, c);
        if cval(c).is_some() || Self::small(c).is_some() {
            return self.decide_x(st, c);
        }
        let n = node(c);
        let (k, neg) = if n.op == Op::Not { (E(n.a), true) } else { (c, false) };
        if let Some(&v) = st.known.borrow().get(&k) {
            self.st.domdec += 1;
            return if v != neg { (None, Some(st.model.clone())) } else { (Some(st.model.clone()), None) };
        }
        let r = self.decide_x(st, c);
        match r {
            (None, Some(_)) => {
                st.known.borrow_mut().insert(k, !neg);
            }
            (Some(_), None) => {
                st.known.borrow_mut().insert(k, neg);
            }
            _ => {}
        }
        r
    }
    fn decide_x(&mut self, st: &State, c: E) -> (Option<Rc<Model>>, Option<Rc<Model>>) {
        let c = self.reduce(st, c);
        if let Some(v) = cval(c) {
            return if v != 0 { (None, Some(st.model.clone())) } else { (Some(st.model.clone()), None) };
        }
        if let Some(v) = Self::small(c) {
            let t = self.table(c, v);
            let d = self.dom_of(st, v);
            let yes = dand(&d, &t);
            let no = dandn(&d, &t);
            let (ye, ne) = (dempty(&yes), dempty(&no));
            if ye || ne {
                self.st.domdec += 1;
                return if ye { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) };
            }
            if !Self::entangled(st, v) {
                self.st.domdec += 1;
                let cur = st.model.get(v as usize).copied().unwrap_or(0) as u32;
                let fix = |d: &Dom| {
                    if dhas(d, cur) {
                        st.model.clone()
                    } else {
                        let mut m = (*st.model).clone();
                        m.resize((v as usize + 1).max(m.len()), 0);
                        m[v as usize] = dfirst(d) as u128;
                        Rc::new(m)
                    }
                };
                return (Some(fix(&no)), Some(fix(&yes)));
            }
        }
        let cur = self.evalm(st, c) != 0;
        let other = if cur { not(c) } else { c };
        let (r, m) = self.solve(st, &[other]);
        let om = match r {
            Res::Sat => m,
            Res::Unsat => None,
            Res::Unknown => {
                self.st.unk_branch += 1;
                Some(st.model.clone())
            }
        };
        if cur {
            (om, Some(st.model.clone()))
        } else {
            (Some(st.model.clone()), om)
        }
    }
    fn add(&mut self, st: &mut State, c: E, model: Rc<Model>) {
        st.model = model;
        self.add_raw(st, c);
    }
    /// `e` with the variables replaced that have a single value left
    fn reduce(&mut self, st: &State, e: E) -> E {
        if st.fixed.is_empty() || cval(e).is_some() {
            return e;
        }
        let vs = self.vars(e);
        let key: Vec<(u32, u8)> = vs.iter().filter_map(|v| st.fixed.get(v).map(|&x| (*v, x))).collect();
        if key.is_empty() {
            return e;
        }
        if let Some(&r) = self.redmemo.get(&(e, key.clone())) {
            return r;
        }
        if self.red_fixed != st.fixed || self.red_sub.len() > 1 << 20 {
            self.red_fixed = st.fixed.clone();
            self.red_sub = Default::default();
        }
        let mut memo = std::mem::take(&mut self.red_sub);
        let r = subst(e, &|v| st.fixed.get(&v).map(|&x| x as u128), &mut memo);
        self.red_sub = memo;
        self.redmemo.insert((e, key), r);
        r
    }
    fn restrict(&mut self, st: &mut State, v: u32, t: &Dom) {
        let d = self.dom_of(st, v);
        let d = dand(&d, t);
        st.dom.insert(v, d);
        if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 && st.fixed.insert(v, dfirst(&d) as u8).is_none() && self.nest == 0 && Self::entangled(st, v) {
            // substitute it in the path condition
            let mut again = vec![];
            let mut i = 0;
            while i < st.pc.len() {
                let e = st.pc[i];
                if self.vars(e).contains(&v) {
                    st.pc.remove(i);
                    again.push(e);
                } else {
                    i += 1;
                }
            }
            st.ent.clear();
            for i in 0..st.pc.len() {
                let e = st.pc[i];
                self.entangle(st, e);
            }
            for e in again {
                let e = self.reduce(st, e);
                self.add_raw(st, e);
            }
        }
    }
    fn entangle(&mut self, st: &mut State, c: E) {
        for &v in self.vars(c).iter() {
            let i = (v >> 6) as usize;
            if st.ent.len() <= i {
                st.ent.resize(i + 1, 0);
            }
            st.ent[i] |= 1 << (v & 63);
        }
    }
    fn add_raw(&mut self, st: &mut State, c: E) {
        let c = self.reduce(st, c);
        if cval(c).is_some() {
            return;
        }
        if let Some(v) = Self::small(c) {
            let t = self.table(c, v);
            self.restrict(st, v, &t);
            return;
        }
        let n = node(c);
        if n.op == Op::And {
            self.add_raw(st, E(n.a));
            self.add_raw(st, E(n.b));
            return;
        }
        if n.op == Op::Not {
            st.known.borrow_mut().insert(E(n.a), false);
        } else {
            st.known.borrow_mut().insert(c, true);
        }
        if st.pc.contains(&c) {
            return;
        }
        self.entangle(st, c);
        st.pc.push(c);
    }
    /// value forced by the current domain, if any
    fn forced(&mut self, st: &State, e: E) -> Option<u128> {
        if let Some(c) = cval(e) {
            return Some(c);
        }
        if let Some(&c) = st.conc.get(&e) {
            return Some(c);
        }
        if let Some(v) = Self::small(e) {
            let d = self.dom_of(st, v);
            let mut m: Model = vec![0; v as usize + 1];
            let mut r = None;
            for x in 0..(1u32 << ctx().vars[v as usize].0) {
                if dhas(&d, x) {
                    m[v as usize] = x as u128;
                    let y = eval(e, &m);
                    match r {
                        None => r = Some(y),
                        Some(z) if z == y => {}
                        _ => return None,
                    }
                }
            }
            return r;
        }
        None
    }
    /// all values of e under the path condition (with a model each)
    fn values(&mut self, st: &State, e: E, cap: usize) -> Rs<Vec<(u128, Rc<Model>)>> {
        let mut out = vec![];
        let e = self.reduce(st, e);
        if let Some(c) = cval(e) {
            return Ok(vec![(c, st.model.clone())]);
        }
        if let Some(v) = Self::small(e) {
            if !Self::entangled(st, v) {
                let d = self.dom_of(st, v);
                let mut m = (*st.model).clone();
                m.resize((v as usize + 1).max(m.len()), 0);
                let mut seen: FxMap<u128, ()> = Default::default();
                for x in 0..(1u32 << ctx().vars[v as usize].0) {
                    if dhas(&d, x) {
                        m[v as usize] = x as u128;
                        let y = eval(e, &m);
                        if seen.insert(y, ()).is_none() {
                            out.push((y, Rc::new(m.clone())));
                        }
                    }
                }
                return Ok(out);
            }
        }
        let w = width(e);
        let mut ex = vec![];
        let v0 = self.evalm(st, e);
        out.push((v0, st.model.clone()));
        ex.push(not(cmp(Op::Eq, e, konst(v0, w))));
        loop {
            let (r, m) = self.solve(st, &ex);
            match r {
                Res::Unsat => return Ok(out),
                Res::Unknown => return Err(Ctl::Err("solver unknown while enumerating values".into())),
                Res::Sat => {
                    let m = m.unwrap();
                    let v = eval(e, &m);
                    if out.iter().any(|x| x.0 == v) {
                        return Err(Ctl::Err("enumeration repeats a value".into()));
                    }
                    out.push((v, m));
                    ex.push(not(cmp(Op::Eq, e, konst(v, w))));
                    if out.len() > cap {
                        return Err(Ctl::Err(format!("too many values for a concretised {}-bit expression", w)));
                    }
                }
            }
        }
    }
    /// make `v` concrete, forking over its values; the current instruction is re-executed in the forks
    fn conc(&mut self, st: &mut State, v: &V, work: &mut Vec<Box<State>>) -> Rs<u128> {
        let e = match v {
            V::C(c) => return Ok(*c as u128),
            V::W(c) => return Ok(**c),
            V::S(e) => *e,
            V::A(_) => return Err(Ctl::Err("concretise aggregate".into())),
        };
        if let Some(c) = self.forced(st, e) {
            return Ok(c);
        }
        let vals = self.values(st, e, 5000)?;
        let w = width(e);
        if vals.is_empty() {
            return Err(Ctl::Dead);
        }
        let site = {
            let f = st.frames.last().unwrap();
            (f.func.idx, f.block)
        };
        if vals.len() > 1 {
            *self.st.sites.entry(site).or_default() += vals.len() as u64 - 1;
            self.st.forks += vals.len() as u64 - 1;
        }
        for (c, m) in vals.iter().skip(1) {
            let mut o = self.clone_state(st);
            {
                let f = o.frames.last_mut().unwrap();
                f.ip = unsafe { f.ip.sub(1) };
            }
            let eqc = cmp(Op::Eq, e, konst(*c, w));
            self.add(&mut o, eqc, m.clone());
            o.conc.insert(e, *c);
            o.forks += 1;
            work.push(o);
        }
        let (c, m) = &vals[0];
        let eqc = cmp(Op::Eq, e, konst(*c, w));
        self.add(st, eqc, m.clone());
        st.conc.insert(e, *c);
        Ok(*c)
    }
    fn conc64(&mut self, st: &mut State, v: &V, work: &mut Vec<Box<State>>) -> Rs<u64> {
        Ok(self.conc(st, v, work)? as u64)
    }

    // ------------------------------------------------------------------ memory

    fn fault(&self, st: &State, f: Fault) -> Ctl {
        let Fault::Unmapped(a) = f;
        Ctl::Err(format!("access to unmapped address {:#x} in {}", a, st.frames.last().map(|f| &*f.func.name).unwrap_or("?")))
    }
    fn load(&mut self, st: &mut State, a: u64, w: u16, bytes: usize) -> Rs<V> {
        if bytes <= 8 {
            if let Some(v) = st.mem.load_fast(&mut self.tlb, a, bytes) {
                return Ok(V::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
        }
        let b = match st.mem.read(&mut self.tlb, a, bytes) {
            Ok(b) => b,
            Err(f) => return Err(self.fault(st, f)),
        };
        if b.iter().all(|x| x.1 == 0) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (x.0 as u128) << (8 * i);
            }
            return Ok(mkc(v, w));
        }
        let mut acc: Option<E> = None;
        for x in b.iter() {
            let e = if x.1 != 0 { E(x.1) } else { konst(x.0 as u128, 8) };
            acc = Some(match acc {
                None => e,
                Some(l) => concat(e, l),
            });
        }
        let e = acc.unwrap();
        Ok(ev(extract(e, 0, w)))
    }
    fn store(&mut self, st: &mut State, a: u64, v: &V, w: u16, bytes: usize) -> Rs<()> {
        match v {
            V::C(c) => {
                if bytes <= 8 {
                    if st.mem.store_fast(&mut self.tlb, a, bytes, *c) {
                        return Ok(());
                    }
                }
                let b = (*c as u128).to_le_bytes();
                st.mem.write_bytes(&mut self.tlb, a, &b[..bytes]).map_err(|f| self.fault(st, f))
            }
            V::W(c) => {
                let b = c.to_le_bytes();
                st.mem.write_bytes(&mut self.tlb, a, &b[..bytes]).map_err(|f| self.fault(st, f))
            }
            V::S(e) => {
                let full = bytes as u16 * 8;
                let e = if w < full { zext(*e, full) } else { *e };
                for i in 0..bytes {
                    let x = extract(e, 8 * i as u16, 8);
                    let r = match cval(x) {
                        Some(c) => st.mem.set_byte(&mut self.tlb, a + i as u64, c as u8, 0),
                        None => st.mem.set_byte(&mut self.tlb, a + i as u64, 0, x.0),
                    };
                    if let Err(f) = r {
                        return Err(self.fault(st, f));
                    }
                }
                Ok(())
            }
            V::A(_) => Err(Ctl::Err("store of aggregate".into())),
        }
    }
    fn load_t(&mut self, st: &mut State, a: u64, t: &T) -> Rs<V> {
        match t {
            T::St(f, _) => {
                let mut v = vec![];
                for (i, x) in f.iter().enumerate() {
                    v.push(self.load_t(st, a + t.offset(i), x)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            T::Arr(n, x) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_t(st, a + i * x.size(), x)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => self.load(st, a, t.bits(), (t.bits() as usize + 7) / 8),
        }
    }
    fn store_t(&mut self, st: &mut State, a: u64, v: &V, t: &T) -> Rs<()> {
        match (t, v) {
            (T::St(f, _), V::A(x)) => {
                for (i, ft) in f.iter().enumerate() {
                    self.store_t(st, a + t.offset(i), &x[i], ft)?;
                }
                Ok(())
            }
            (T::Arr(n, et), V::A(x)) => {
                for i in 0..*n {
                    self.store_t(st, a + i * et.size(), &x[i as usize], et)?;
                }
                Ok(())
            }
            _ => self.store(st, a, v, t.bits(), (t.bits() as usize + 7) / 8),
        }
    }
    /// a load through a symbolic address whose value set is small: an if-then-else over the table
    fn load_sym(&mut self, st: &mut State, a: E, w: u16, bytes: usize) -> Rs<Option<V>> {
        if w > 32 {
            return Ok(None);
        }
        let v = match Self::small(a) {
            Some(v) => v,
            None => return Ok(None),
        };
        let d = self.dom_of(st, v);
        let mut m: Model = vec![0; v as usize + 1];
        let mut by: Vec<(E, Dom)> = vec![];
        for x in 0..(1u32 << ctx().vars[v as usize].0) {
            if dhas(&d, x) {
                m[v as usize] = x as u128;
                let ad = eval(a, &m) as u64;
                let val = ve(&self.load(st, ad, w, bytes)?, w);
                match by.iter_mut().find(|(y, _)| *y == val) {
                    Some((_, s)) => s[(x >> 6) as usize] |= 1 << (x & 63),
                    None => {
                        let mut s = [0; 4];
                        s[(x >> 6) as usize] |= 1 << (x & 63);
                        by.push((val, s));
                    }
                }
            }
        }
        if by.len() > 64 {
            return Ok(None);
        }
        let mut r = by.last().unwrap().0;
        for (val, s) in by.iter().rev().skip(1) {
            let c = self.dom_expr(v, s);
            r = ite(c, *val, r);
        }
        Ok(Some(ev(r)))
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> Rs<u64> {
        let al = align.max(16);
        let a = (st.heap + al - 1) / al * al;
        st.heap = a + size.max(1);
        if st.heap > HEAP_END {
            return Err(Ctl::Err("heap exhausted".into()));
        }
        st.last_alloc = a;
        Ok(a)
    }
    fn bytes_of(&mut self, st: &mut State, p: u64, n: u64) -> Rs<Vec<u8>> {
        let b = match st.mem.read(&mut self.tlb, p, n as usize) {
            Ok(b) => b,
            Err(f) => return Err(self.fault(st, f)),
        };
        let mut out = vec![];
        for x in b {
            if x.1 != 0 {
                let m = eval(E(x.1), &st.model);
                match self.forced(st, E(x.1)) {
                    Some(v) => out.push(v as u8),
                    None => out.push(m as u8),
                }
            } else {
                out.push(x.0)
            }
        }
        Ok(out)
    }
    fn text(&mut self, st: &mut State, p: &V, n: &V) -> Rs<String> {
        match (p, n) {
            (V::C(p), V::C(n)) if *n < 1 << 20 => {
                let b = self.bytes_of(st, *p, *n)?;
                Ok(String::from_utf8_lossy(&b).into_owned())
            }
            _ => Err(Ctl::Err("harness passed a symbolic string".into())),
        }
    }

    // ------------------------------------------------------------------ outcomes

    fn violation(&mut self, st: &State, id: String, m: &Model, maybe: bool) {
        let mut inputs = vec![];
        for (n, v) in st.inputs.iter() {
            let w = ctx().vars[*v as usize].0;
            inputs.push((n.clone(), w, m.get(*v as usize).copied().unwrap_or(0)));
        }
        // keep at most a few per id
        if self.st.violations.iter().filter(|x| x.id == id).count() < 3 {
            self.st.violations.push(Violation { id, inputs, notes: st.notes.to_vec(), maybe });
        }
        if self.cfg.stop_first {
            unsafe { (*self.shared).stop.store(1, std::sync::atomic::Ordering::SeqCst) };
        }
    }
    fn check(&mut self, st: &mut State, c: E, id: String) -> Rs<()> {
        let ent = self.st.checks.entry(id.clone()).or_default();
        ent.0 += 1;
        let c = self.reduce(st, c);
        let ent = self.st.checks.get_mut(&id).unwrap();
        match cval(c) {
            Some(0) => {
                let m = st.model.clone();
                let u = st.unknown;
                self.violation(st, id, &m, u);
                return Err(Ctl::Dead);
            }
            Some(_) => return Ok(()),
            None => {}
        }
        ent.1 += 1;
        let nc = not(c);
        // domains may settle it
        if let Some(v) = Self::small(c) {
            let t = self.table(c, v);
            let d = self.dom_of(st, v);
            if dempty(&dandn(&d, &t)) {
                return Ok(());
            }
        }
        let (r, m) = self.solve_x(st, &[nc], true);
        match r {
            Res::Unsat => Ok(()),
            Res::Unknown => {
                self.st.checks.get_mut(&id).unwrap().2 += 1;
                Ok(())
            }
            Res::Sat => {
                let m = m.unwrap();
                let u = st.unknown;
                self.violation(st, id, &m, u);
                // go on with the rest, if anything is left
                let (_, t) = self.decide(st, c);
                match t {
                    None => Err(Ctl::Dead),
                    Some(t) => {
                        self.add(st, c, t);
                        Ok(())
                    }
                }
            }
        }
    }
    fn sample(&mut self, st: &State, end: &str) {
        let n = self.st.paths;
        if self.st.samples.len() < 4 || (n.is_power_of_two() && self.st.samples.len() < 12) {
            let mut s = String::new();
            for (nm, v) in st.inputs.iter() {
                s.push_str(&format!("{}={} ", nm, st.model.get(*v as usize).copied().unwrap_or(0) as i128));
            }
            for n in st.notes.iter().take(4) {
                s.push_str(&format!("[{}] ", n));
            }
            s.push_str(end);
            self.st.samples.push(s);
        }
    }

    // ------------------------------------------------------------------ exploration

    pub fn explore_all(&mut self, st: State) {
        let mut work: Vec<Box<State>> = vec![Box::new(st)];
        unsafe { (*self.shared).active.fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
        while let Some(s) = work.pop() {
            self.tlb.flush();
            if self.over() {
                *self.st.incomplete.entry("time, path or violation limit".into()).or_default() += 1 + work.len() as u64;
                break;
            }
            self.run_one(s, Stop::None, &mut work, &mut vec![]);
            self.maybe_split(&mut work);
        }
    }
    fn over(&mut self) -> bool {
        use std::sync::atomic::Ordering::SeqCst;
        if self.stopping {
            return true;
        }
        unsafe {
            if (*self.shared).stop.load(SeqCst) != 0 || Instant::now() > self.cfg.deadline || (*self.shared).paths.load(SeqCst) > self.cfg.max_paths {
                self.stopping = true;
                return true;
            }
        }
        false
    }
    fn maybe_split(&mut self, work: &mut Vec<Box<State>>) {
        use std::sync::atomic::Ordering::SeqCst;
        if self.nest > 0 {
            return;
        }
        while work.len() > 1 {
            let sh = unsafe { &*self.shared };
            let a = sh.active.load(SeqCst);
            if a >= self.cfg.workers {
                return;
            }
            if sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() {
                continue;
            }
            let s = work.remove(0);
            let pid = unsafe { fork() };
            if pid == 0 {
                // child: only the given state
                work.clear();
                work.push(s);
                self.kids.clear();
                self.st = Stats::default();
                for t in self.touched.iter_mut() {
                    *t = false;
                }
                self.z = Z3::new(self.cfg.rlimit);
                return;
            }
            if pid < 0 {
                sh.active.fetch_sub(1, SeqCst);
                work.insert(0, s);
                return;
            }
            self.kids.push(pid);
        }
    }
    pub fn finish(&mut self) -> bool {
        use std::sync::atomic::Ordering::SeqCst;
        unsafe { (*self.shared).active.fetch_sub(1, SeqCst) };
        let mut bad = false;
        for k in std::mem::take(&mut self.kids) {
            let mut s = 0;
            unsafe { waitpid(k, &mut s, 0) };
            if s != 0 {
                bad = true;
            }
        }
        bad
    }

    /// explore from st until every descendant ends or reaches `stop`
    fn explore_to(&mut self, st: Box<State>, stop: Stop, reached: &mut Vec<Box<State>>) {
        let mut work = vec![st];
        self.nest += 1;
        while let Some(s) = work.pop() {
            self.tlb.flush();
            if self.over() {
                *self.st.incomplete.entry("time, path or violation limit".into()).or_default() += 1 + work.len() as u64;
                break;
            }
            self.run_one(s, stop, &mut work, reached);
        }
        self.nest -= 1;
    }

    fn run_one(&mut self, mut s: Box<State>, stop: Stop, work: &mut Vec<Box<State>>, reached: &mut Vec<Box<State>>) {
        match self.run(&mut s, stop, work) {
            Ok(()) => reached.push(s),
            Err(Ctl::Dead) => {}
            Err(Ctl::Err(e)) => {
                let e = format!("{} (in {})", e, s.frames.iter().rev().take(6).map(|f| f.func.name.to_string()).collect::<Vec<_>>().join(" < "));
                if self.cfg.trace {
                    eprintln!("engine error: {}", e);
                    for f in s.frames.iter().rev().take(40) {
                        eprintln!("   at {}", f.func.name);
                    }
                }
                *self.st.errors.entry(e).or_default() += 1;
            }
        }
    }

    fn end_path(&mut self, st: &State, how: &str) {
        self.st.paths += 1;
        unsafe { (*self.shared).paths.fetch_add(1, std::sync::atomic::Ordering::Relaxed) };
        self.sample(st, how);
    }

    fn jump(st: &mut State, e: &Edge) {
        let f = st.frames.last_mut().unwrap();
        match e.copies.len() {
            0 => {}
            1 => {
                let (d, r) = e.copies[0];
                let v = if r & CONST != 0 { f.func.consts[(r & !CONST) as usize].clone() } else { f.regs[r as usize].clone() };
                f.regs[d as usize] = v;
            }
            _ => {
                let vals: Vec<V> = e
                    .copies
                    .iter()
                    .map(|&(_, r)| if r & CONST != 0 { f.func.consts[(r & !CONST) as usize].clone() } else { f.regs[r as usize].clone() })
                    .collect();
                for (v, (d, _)) in vals.into_iter().zip(e.copies.iter()) {
                    f.regs[*d as usize] = v;
                }
            }
        }
        f.block = e.to;
        f.ip = f.func.blocks[e.to as usize].as_ptr();
    }

    /// `ite(c, a, b)` of two values of width w (of type t when they are aggregates)
    fn sel(&mut self, c: E, a: &V, b: &V, w: u16, t: Option<&T>) -> Option<V> {
        Some(match (a, b) {
            (V::A(x), V::A(y)) => {
                if x.len() != y.len() {
                    return None;
                }
                let mut o = vec![];
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    let et = match t? {
                        T::St(f, _) => &f[i],
                        T::Arr(_, e) => &**e,
                        _ => return None,
                    };
                    o.push(self.sel(c, p, q, et.bits(), Some(et))?);
                }
                V::A(Rc::new(o))
            }
            (V::A(_), _) | (_, V::A(_)) => return None,
            (V::C(x), V::C(y)) if x == y => V::C(*x),
            (V::W(x), V::W(y)) if x == y => V::W(x.clone()),
            _ => {
                if w == 0 {
                    return None;
                }
                ev(ite(c, ve(a, w), ve(b, w)))
            }
        })
    }

    /// merge b into a under guard g (a's); false when not mergeable
    fn try_merge(&mut self, base_pc: usize, base_dom: &FxMap<u32, Dom>, a: &mut State, b: &State) -> bool {
        if a.frames.len() != b.frames.len() || a.sp != b.sp || a.pc.len() < base_pc || b.pc.len() < base_pc {
            return false;
        }
        if a.inputs.len() != b.inputs.len() || a.merge != b.merge || a.panic_ok != b.panic_ok || a.out.len() != b.out.len() {
            return false;
        }
        let top = a.frames.len() - 1;
        for i in 0..=top {
            let (x, y) = (&a.frames[i], &b.frames[i]);
            if x.func.idx != y.func.idx || x.ip != y.ip || x.sp != y.sp {
                return false;
            }
        }
        let guard = |me: &mut Self, s: &State| -> E {
            let mut g = tt();
            for &e in &s.pc[base_pc..] {
                g = bin(Op::And, g, e);
            }
            let mut vs: Vec<u32> = s.dom.keys().copied().collect();
            vs.sort_unstable();
            for v in vs {
                let d = s.dom[&v];
                let bd = base_dom.get(&v).copied().unwrap_or_else(|| dfull(ctx().vars[v as usize].0));
                if d != bd {
                    // express relative to the base: values excluded there are irrelevant
                    let e = me.dom_expr(v, &d);
                    g = bin(Op::And, g, e);
                }
            }
            g
        };
        let ga = guard(self, a);
        let gb = guard(self, b);
        let mut regs: Vec<(usize, usize, V)> = vec![];
        for i in 0..=top {
            let n = a.frames[i].regs.len();
            let rw = &a.frames[i].func.rw;
            for r in 0..n {
                let (x, y) = (&a.frames[i].regs[r], &b.frames[i].regs[r]);
                let same = match (x, y) {
                    (V::C(p), V::C(q)) => p == q,
                    (V::S(p), V::S(q)) => p == q,
                    (V::W(p), V::W(q)) => p == q,
                    (V::A(p), V::A(q)) => Rc::ptr_eq(p, q),
                    _ => false,
                };
                if same {
                    continue;
                }
                // a register that is an aggregate on one side only was never written on the other: dead
                if matches!(x, V::A(_)) != matches!(y, V::A(_)) {
                    continue;
                }
                let t = a.frames[i].func.at.get(&(r as u32)).cloned();
                match self.sel(ga, x, y, rw[r], t.as_ref()) {
                    Some(v) => regs.push((i, r, v)),
                    None => return false,
                }
            }
        }
        for (i, r, v) in regs {
            a.frames[i].regs[r] = v;
        }
        a.mem.merge(&b.mem, ga, (a.sp, STACK_END));
        a.heap = a.heap.max(b.heap);
        a.last_alloc = 0;
        a.steps = a.steps.max(b.steps);
        a.unknown |= b.unknown;
        a.known.borrow_mut().retain(|k, v| b.known.borrow().get(k) == Some(v));
        a.pc.truncate(base_pc);
        // domains: union
        let keys: Vec<u32> = a.dom.keys().copied().collect();
        for v in keys {
            match b.dom.get(&v) {
                Some(d) => {
                    let x = a.dom.get_mut(&v).unwrap();
                    for i in 0..4 {
                        x[i] |= d[i];
                    }
                }
                None => {
                    a.dom.remove(&v);
                }
            }
        }
        a.fixed = a.dom.iter().filter(|(_, d)| d.iter().map(|x| x.count_ones()).sum::<u32>() == 1).map(|(v, d)| (*v, dfirst(d) as u8)).collect();
        for (i, x) in b.ent.iter().enumerate() {
            if a.ent.len() <= i {
                a.ent.push(*x)
            } else {
                a.ent[i] |= *x
            }
        }
        let conc: FxMap<E, u128> = a.conc.iter().filter(|(k, v)| b.conc.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect();
        a.conc = conc;
        let either = bin(Op::Or, ga, gb);
        // implied by the united domains when both sides only restrict one byte
        let triv = match Self::small(either) {
            Some(v) => {
                let t = self.table(either, v);
                let d = self.dom_of(a, v);
                dempty(&dandn(&d, &t))
            }
            None => cval(either) == Some(1),
        };
        if !triv {
            self.add_raw(a, either);
        }
        self.tlb.flush();
        self.st.merges += 1;
        true
    }

    /// both sides feasible at a conditional branch in merge mode
    fn merge_branch(&mut self, st: &mut State, feas: &[(E, &'static Edge, Rc<Model>)], work: &mut Vec<Box<State>>) -> Rs<bool> {
        let depth = st.frames.len();
        let f = st.frames.last().unwrap();
        let ip = f.func.ipdom.get_or_init(|| ipdoms(f.func));
        let j = ip[f.block as usize];
        let target = if j == u32::MAX {
            Stop::Ret(depth)
        } else {
            Stop::Block(depth, j)
        };
        if target == Stop::Ret(depth) && depth == 1 {
            return Ok(false);
        }
        let base_pc = st.pc.len();
        let base_dom = st.dom.clone();
        let mut r = vec![];
        let mut starts = vec![];
        // the path condition may only grow until the branches are merged again
        self.nest += 1;
        for (g, e, m) in feas {
            let mut o = self.clone_state(st);
            self.add(&mut o, *g, m.clone());
            Self::jump(&mut o, e);
            starts.push((o, *e));
        }
        for (o, e) in starts {
            if matches!(target, Stop::Block(d, b) if d == o.frames.len() && b == e.to) {
                r.push(o);
            } else {
                self.explore_to(o, target, &mut r);
            }
        }
        if r.is_empty() {
            self.nest -= 1;
            return Err(Ctl::Dead);
        }
        let mut merged: Vec<Box<State>> = vec![];
        for s in r {
            let mut done = false;
            for m in merged.iter_mut() {
                if self.try_merge(base_pc, &base_dom, m, &s) {
                    done = true;
                    break;
                }
            }
            if !done {
                merged.push(s);
            }
        }
        self.nest -= 1;
        if merged.len() > 1 {
            self.st.merge_fail += merged.len() as u64 - 1;
            self.st.forks += merged.len() as u64 - 1;
        }
        self.tlb.flush();
        let first = merged.remove(0);
        *st = *first;
        // the others may themselves already be at `stop`
        for s in merged {
            work.push(s);
        }
        Ok(true)
    }

    #[inline(always)]
    fn at_stop(st: &State, stop: Stop) -> bool {
        match stop {
            Stop::None => false,
            Stop::Block(d, b) => {
                let n = st.frames.len();
                if n != d {
                    return n < d;
                }
                let f = &st.frames[d - 1];
                f.block == b && f.ip == f.func.blocks[b as usize].as_ptr()
            }
            Stop::Ret(d) => st.frames.len() < d,
        }
    }

    fn branch(&mut self, st: &mut State, c: E, te: &'static Edge, fe: &'static Edge, _stop: Stop, work: &mut Vec<Box<State>>) -> Rs<()> {
        let (fm, tm) = self.decide(st, c);
        match (fm, tm) {
            (None, None) => Err(Ctl::Dead),
            (None, Some(_)) => {
                Self::jump(st, te);
                Ok(())
            }
            (Some(_), None) => {
                Self::jump(st, fe);
                Ok(())
            }
            (Some(fm), Some(tm)) => {
                if st.merge {
                    if self.merge_branch(st, &[(c, te, tm.clone()), (not(c), fe, fm.clone())], work)? {
                        return Ok(());
                    }
                }
                let f = st.frames.last().unwrap();
                *self.st.sites.entry((f.func.idx, f.block)).or_default() += 1;
                self.st.forks += 1;
                let mut o = self.clone_state(st);
                self.add(&mut o, not(c), fm);
                self.add(st, c, tm);
                o.forks += 1;
                st.forks += 1;
                Self::jump(&mut o, fe);
                work.push(o);
                Self::jump(st, te);
                Ok(())
            }
        }
    }

    fn run(&mut self, st: &mut State, stop: Stop, work: &mut Vec<Box<State>>) -> Rs<()> {
        macro_rules! get {
            ($f:expr, $r:expr) => {
                unsafe {
                    let r: u32 = $r;
                    if r & CONST != 0 {
                        (&(*$f).func.consts).get_unchecked((r & !CONST) as usize)
                    } else {
                        (&(*$f).regs).get_unchecked(r as usize)
                    }
                }
            };
        }
        macro_rules! set {
            ($f:expr, $d:expr, $v:expr) => {
                unsafe {
                    let v = $v;
                    *(&mut (*$f).regs).get_unchecked_mut($d as usize) = v;
                }
            };
        }
        if Self::at_stop(st, stop) {
            return Ok(());
        }
        let mut f: *mut Frame = st.frames.last_mut().unwrap();
        loop {
            st.steps += 1;
            self.st.insts += 1;
            self.tick += 1;
            if self.tick & 0xffff == 0 {
                if st.steps > self.cfg.max_steps {
                    *self.st.incomplete.entry("step limit".into()).or_default() += 1;
                    return Err(Ctl::Dead);
                }
                if self.over() {
                    *self.st.incomplete.entry("time, path or violation limit".into()).or_default() += 1;
                    return Err(Ctl::Dead);
                }
            }
            let inst: &'static Inst = unsafe { &*(*f).ip };
            unsafe { (*f).ip = (*f).ip.add(1) };
            match inst {
                Inst::Bin { k, w, dst, a, b } => {
                    let (x, y) = (get!(f, *a), get!(f, *b));
                    if let (V::C(x), V::C(y)) = (x, y) {
                        if *w <= 64 {
                            let r = bin64(*k, *w, *x, *y);
                            set!(f, *dst, V::C(r));
                            continue;
                        }
                    }
                    let w = *w;
                    let (x, y) = (ve(x, w), ve(y, w));
                    // division by zero is checked by the code under test before dividing
                    set!(f, *dst, ev(bin(bk(*k), x, y)));
                }
                Inst::Icmp { p, w, dst, a, b } => {
                    let (x, y) = (get!(f, *a), get!(f, *b));
                    if let (V::C(x), V::C(y)) = (x, y) {
                        let r = icmp64(*p, *w, *x, *y);
                        set!(f, *dst, V::C(r as u64));
                        continue;
                    }
                    let r = icmp_e(*p, ve(x, *w), ve(y, *w));
                    set!(f, *dst, ev(r));
                }
                Inst::Load { dst, p, w, bytes } => {
                    let a = match get!(f, *p) {
                        V::C(a) => *a,
                        v => {
                            let v = v.clone();
                            if let V::S(e) = v {
                                if self.forced(st, e).is_none() {
                                    if let Some(r) = self.load_sym(st, e, *w, *bytes as usize)? {
                                        set!(f, *dst, r);
                                        continue;
                                    }
                                }
                            }
                            self.conc64(st, &v, work)?
                        }
                    };
                    let v = self.load(st, a, *w, *bytes as usize)?;
                    set!(f, *dst, v);
                }
                Inst::Store { v, p, w, bytes } => {
                    let a = match get!(f, *p) {
                        V::C(a) => *a,
                        x => {
                            let x = x.clone();
                            self.conc64(st, &x, work)?
                        }
                    };
                    let v: *const V = get!(f, *v);
                    self.store(st, a, unsafe { &*v }, *w, *bytes as usize)?;
                }
                Inst::Gep { dst, base, off, terms } => {
                    let mut ok = true;
                    let mut a = *off;
                    match get!(f, *base) {
                        V::C(b) => a = a.wrapping_add(*b),
                        _ => ok = false,
                    }
                    if ok {
                        for (r, w, sz) in terms.iter() {
                            match get!(f, *r) {
                                V::C(i) => {
                                    let i = if *w < 64 { sx(*i as u128, *w) as u64 } else { *i };
                                    a = a.wrapping_add(i.wrapping_mul(*sz));
                                }
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                    }
                    if ok {
                        set!(f, *dst, V::C(a));
                        continue;
                    }
                    let mut e = bin(Op::Add, ve(get!(f, *base), 64), konst(*off as u128, 64));
                    for (r, w, sz) in terms.iter() {
                        let i = sext(ve(get!(f, *r), *w), 64);
                        e = bin(Op::Add, e, bin(Op::Mul, i, konst(*sz as u128, 64)));
                    }
                    set!(f, *dst, ev(e));
                }
                Inst::Br(e) => {
                    Self::jump(st, e);
                    if stop != Stop::None && Self::at_stop(st, stop) {
                        return Ok(());
                    }
                }
                Inst::CondBr { c, t, f: fe } => {
                    match get!(f, *c) {
                        V::C(v) => {
                            let e = if *v & 1 != 0 { t } else { fe };
                            Self::jump(st, e);
                        }
                        v => {
                            let c = ve(v, 1);
                            self.branch(st, c, t, fe, stop, work)?;
                            f = st.frames.last_mut().unwrap();
                        }
                    }
                    if stop != Stop::None && Self::at_stop(st, stop) {
                        return Ok(());
                    }
                }
                Inst::Switch { v, w, def, cases } => {
                    let v = get!(f, *v).clone();
                    let c = match &v {
                        V::C(c) => Some(*c as u128),
                        V::W(c) => Some(**c),
                        V::S(e) => self.forced(st, *e),
                        _ => None,
                    };
                    if let Some(c) = c {
                        let e = cases.iter().find(|x| x.0 == c).map(|x| &x.1).unwrap_or(def);
                        Self::jump(st, e);
                    } else {
                        self.switch(st, ve(&v, *w), *w, def, cases, work)?;
                        f = st.frames.last_mut().unwrap();
                    }
                    if stop != Stop::None && Self::at_stop(st, stop) {
                        return Ok(());
                    }
                }
                Inst::Call(c) => {
                    self.call(st, c, work)?;
                    f = st.frames.last_mut().unwrap();
                    if stop != Stop::None && Self::at_stop(st, stop) {
                        return Ok(());
                    }
                }
                Inst::Ret(r) => {
                    let v = r.map(|r| get!(f, r).clone());
                    let fr = st.frames.pop().unwrap();
                    st.sp = fr.sp;
                    if st.frames.is_empty() {
                        self.end_path(st, "return");
                        return Err(Ctl::Dead);
                    }
                    f = st.frames.last_mut().unwrap();
                    if let (Some(v), true) = (v, fr.dst != u32::MAX) {
                        set!(f, fr.dst, v);
                    }
                    if let Some(e) = fr.ret_edge {
                        Self::jump(st, e);
                    }
                    self.pool.push(fr.regs);
                    if stop != Stop::None && Self::at_stop(st, stop) {
                        return Ok(());
                    }
                }
                Inst::Copy { dst, a } => {
                    let v = get!(f, *a).clone();
                    set!(f, *dst, v);
                }
                Inst::Cast { k, fw, tw, dst, a } => {
                    let v = get!(f, *a);
                    if let V::C(x) = v {
                        if *tw <= 64 {
                            let x = *x;
                            let r = match k {
                                CastK::Trunc => x & mask(*tw) as u64,
                                CastK::ZExt => x,
                                CastK::SExt => sx(x as u128, *fw) as u64 & mask(*tw) as u64,
                                k => fcast(*k, *fw, *tw, x as u128).ok_or_else(|| Ctl::Err("float cast".into()))? as u64,
                            };
                            set!(f, *dst, V::C(r));
                            continue;
                        }
                    }
                    let e = ve(v, *fw);
                    let r = match k {
                        CastK::Trunc => extract(e, 0, *tw),
                        CastK::ZExt => zext(e, *tw),
                        CastK::SExt => sext(e, *tw),
                        k => {
                            let (k, fw, tw, dst, v) = (*k, *fw, *tw, *dst, v.clone());
                            let x = self.conc64(st, &v, work)?;
                            let r = fcast(k, fw, tw, x as u128).ok_or_else(|| Ctl::Err("float cast".into()))? as u64;
                            f = st.frames.last_mut().unwrap();
                            set!(f, dst, V::C(r));
                            continue;
                        }
                    };
                    set!(f, *dst, ev(r));
                }
                Inst::Select { dst, c, a, b, ty } => {
                    let r = match get!(f, *c) {
                        V::C(c) => {
                            if *c & 1 != 0 {
                                get!(f, *a).clone()
                            } else {
                                get!(f, *b).clone()
                            }
                        }
                        cv => {
                            let c = ve(cv, 1);
                            let (x, y) = (get!(f, *a).clone(), get!(f, *b).clone());
                            let fork_it = **ty == T::Ptr && !st.merge;
                            match if fork_it { None } else { self.sel(c, &x, &y, ty.bits(), Some(&**ty)) } {
                                Some(v) => v,
                                None => {
                                    let cv = V::S(c);
                                    let k = self.conc(st, &cv, work)?;
                                    if k != 0 {
                                        x
                                    } else {
                                        y
                                    }
                                }
                            }
                        }
                    };
                    set!(f, *dst, r);
                }
                Inst::Alloca { dst, size, align, n } => {
                    let n = match get!(f, *n) {
                        V::C(n) => *n,
                        _ => return Err(Ctl::Err("symbolic alloca".into())),
                    };
                    let al = (*align).max(8);
                    let a = (st.sp + al - 1) / al * al;
                    st.sp = a + size * n;
                    if st.sp > STACK_END {
                        return Err(Ctl::Err("stack overflow".into()));
                    }
                    set!(f, *dst, V::C(a));
                }
                Inst::LoadA { dst, p, ty } => {
                    let p = get!(f, *p).clone();
                    let a = self.conc64(st, &p, work)?;
                    let v = self.load_t(st, a, ty)?;
                    set!(f, *dst, v);
                }
                Inst::StoreA { v, p, ty } => {
                    let p = get!(f, *p).clone();
                    let a = self.conc64(st, &p, work)?;
                    let v = get!(f, *v).clone();
                    self.store_t(st, a, &v, ty)?;
                }
                Inst::Extract { dst, a, idx } => {
                    let mut v = get!(f, *a).clone();
                    for i in idx.iter() {
                        v = match v {
                            V::A(x) => x[*i as usize].clone(),
                            _ => return Err(Ctl::Err("extractvalue of scalar".into())),
                        };
                    }
                    set!(f, *dst, v);
                }
                Inst::Insert { dst, a, v, idx } => {
                    let mut agg = get!(f, *a).clone();
                    let v = get!(f, *v).clone();
                    fn ins(a: &mut V, idx: &[u32], v: V) {
                        if idx.is_empty() {
                            *a = v;
                        } else if let V::A(x) = a {
                            ins(&mut Rc::make_mut(x)[idx[0] as usize], &idx[1..], v);
                        }
                    }
                    ins(&mut agg, idx, v);
                    set!(f, *dst, agg);
                }
                Inst::VBin { k, n, ew, dst, a, b } => {
                    let w = n * ew;
                    let (x, y) = (get!(f, *a).clone(), get!(f, *b).clone());
                    let r = vmap2(*n, *ew, *ew, &x, &y, w, &mut |p, q| bin(bk(*k), p, q));
                    set!(f, *dst, r);
                }
                Inst::VIcmp { p, n, ew, dst, a, b } => {
                    let w = n * ew;
                    let (x, y) = (get!(f, *a).clone(), get!(f, *b).clone());
                    let r = vmap2(*n, *ew, 1, &x, &y, w, &mut |u, v| icmp_e(*p, u, v));
                    set!(f, *dst, r);
                }
                Inst::VCast { k, n, fw, tw, dst, a } => {
                    let x = ve(get!(f, *a), n * fw);
                    let mut r: Option<E> = None;
                    for i in 0..*n {
                        let e = extract(x, i * fw, *fw);
                        let e = match k {
                            CastK::Trunc => extract(e, 0, *tw),
                            CastK::ZExt => zext(e, *tw),
                            CastK::SExt => sext(e, *tw),
                            _ => return Err(Ctl::Err("vector cast".into())),
                        };
                        r = Some(match r {
                            None => e,
                            Some(l) => concat(e, l),
                        });
                    }
                    set!(f, *dst, ev(r.unwrap()));
                }
                Inst::VSelect { n, ew, dst, c, a, b } => {
                    let c = ve(get!(f, *c), *n);
                    let (x, y) = (get!(f, *a).clone(), get!(f, *b).clone());
                    let mut i = 0;
                    let r = vmap2(*n, *ew, *ew, &x, &y, n * ew, &mut |p, q| {
                        let ci = extract(c, i, 1);
                        i += 1;
                        ite(ci, p, q)
                    });
                    set!(f, *dst, r);
                }
                Inst::VExtract { dst, a, i, ew } => {
                    let i = match get!(f, *i) {
                        V::C(i) => *i as u16,
                        _ => return Err(Ctl::Err("symbolic lane".into())),
                    };
                    let v = get!(f, *a);
                    let tot = match v {
                        V::S(e) => width(*e),
                        V::W(_) => 128,
                        _ => 64,
                    };
                    let e = extract(ve(v, tot), i * ew, *ew);
                    set!(f, *dst, ev(e));
                }
                Inst::VInsert { dst, a, v, i, ew, n } => {
                    let i = match get!(f, *i) {
                        V::C(i) => *i as u16,
                        _ => return Err(Ctl::Err("symbolic lane".into())),
                    };
                    let w = n * ew;
                    let x = ve(get!(f, *a), w);
                    let v = ve(get!(f, *v), *ew);
                    let mut r: Option<E> = None;
                    for k in 0..*n {
                        let e = if k == i { v } else { extract(x, k * ew, *ew) };
                        r = Some(match r {
                            None => e,
                            Some(l) => concat(e, l),
                        });
                    }
                    set!(f, *dst, ev(r.unwrap()));
                }
                Inst::Shuffle { dst, a, b, n, ew, mask } => {
                    let w = n * ew;
                    let (x, y) = (ve(get!(f, *a), w), ve(get!(f, *b), w));
                    let mut r: Option<E> = None;
                    for &k in mask.iter() {
                        let k = k as u16;
                        let e = if k < *n { extract(x, k * ew, *ew) } else { extract(y, (k - n) * ew, *ew) };
                        r = Some(match r {
                            None => e,
                            Some(l) => concat(e, l),
                        });
                    }
                    set!(f, *dst, ev(r.unwrap()));
                }
                Inst::AtomicRmw { dst, op, p, v, w } => {
                    let p = get!(f, *p).clone();
                    let a = self.conc64(st, &p, work)?;
                    let v = get!(f, *v).clone();
                    let by = (*w as usize + 7) / 8;
                    let old = self.load(st, a, *w, by)?;
                    let (x, y) = (ve(&old, *w), ve(&v, *w));
                    let n = match &**op {
                        "xchg" => y,
                        "add" => bin(Op::Add, x, y),
                        "sub" => bin(Op::Sub, x, y),
                        "and" => bin(Op::And, x, y),
                        "or" => bin(Op::Or, x, y),
                        "xor" => bin(Op::Xor, x, y),
                        "umax" => ite(cmp(Op::Ult, x, y), y, x),
                        "umin" => ite(cmp(Op::Ult, x, y), x, y),
                        _ => return Err(Ctl::Err(format!("atomicrmw {}", op))),
                    };
                    self.store(st, a, &ev(n), *w, by)?;
                    set!(f, *dst, old);
                }
                Inst::CmpXchg { dst, p, c, n, w } => {
                    let p = get!(f, *p).clone();
                    let a = self.conc64(st, &p, work)?;
                    let (c, n) = (get!(f, *c).clone(), get!(f, *n).clone());
                    let by = (*w as usize + 7) / 8;
                    let old = self.load(st, a, *w, by)?;
                    let e = cmp(Op::Eq, ve(&old, *w), ve(&c, *w));
                    match cval(e) {
                        Some(1) => self.store(st, a, &n, *w, by)?,
                        Some(_) => {}
                        None => return Err(Ctl::Err("symbolic cmpxchg".into())),
                    }
                    set!(f, *dst, V::A(Rc::new(vec![old, ev(e)])));
                }
                Inst::FBin { op, w, dst, a, b } => {
                    let r = match (get!(f, *a), get!(f, *b)) {
                        (V::C(x), V::C(y)) => fbin(*op, *w, *x, *y),
                        _ => return Err(Ctl::Err("symbolic float".into())),
                    };
                    set!(f, *dst, V::C(r));
                }
                Inst::FNeg { w, dst, a } => {
                    let r = match get!(f, *a) {
                        V::C(x) => x ^ (1u64 << (w - 1)),
                        _ => return Err(Ctl::Err("symbolic float".into())),
                    };
                    set!(f, *dst, V::C(r));
                }
                Inst::FCmp { p, w, dst, a, b } => {
                    let r = match (get!(f, *a), get!(f, *b)) {
                        (V::C(x), V::C(y)) => fcmp(p, *w, *x, *y),
                        _ => return Err(Ctl::Err("symbolic float".into())),
                    };
                    set!(f, *dst, V::C(r as u64));
                }
                Inst::Nop => {}
                Inst::Unreachable => return Err(Ctl::Err("reached unreachable".into())),
                Inst::Resume => return Err(Ctl::Err("reached resume".into())),
            }
        }
    }

    fn switch(&mut self, st: &mut State, v: E, w: u16, def: &'static Edge, cases: &'static [(u128, Edge)], work: &mut Vec<Box<State>>) -> Rs<()> {
        // group cases by edge (same target and same copies are rare to differ; keep it by index of target)
        let mut groups: Vec<(E, &'static Edge)> = vec![];
        let mut none = tt();
        for (c, e) in cases.iter() {
            let q = cmp(Op::Eq, v, konst(*c, w));
            none = bin(Op::And, none, not(q));
            let same = |x: &Edge| x.to == e.to && x.copies.len() == e.copies.len() && x.copies.iter().zip(e.copies.iter()).all(|(p, q)| p == q);
            if same(def) {
                continue;
            }
            match groups.iter_mut().find(|g| same(g.1)) {
                Some(g) => g.0 = bin(Op::Or, g.0, q),
                None => groups.push((q, e)),
            }
        }
        let mut dflt = tt();
        for g in &groups {
            dflt = bin(Op::And, dflt, not(g.0));
        }
        groups.push((dflt, def));
        let mut feas: Vec<(E, &'static Edge, Rc<Model>)> = vec![];
        for (g, e) in groups {
            let (_, t) = self.decide(st, g);
            if let Some(m) = t {
                feas.push((g, e, m));
            }
        }
        if feas.is_empty() {
            return Err(Ctl::Dead);
        }
        if feas.len() > 1 && st.merge && self.merge_branch(st, &feas, work)? {
            return Ok(());
        }
        if feas.len() > 1 {
            let f = st.frames.last().unwrap();
            *self.st.sites.entry((f.func.idx, f.block)).or_default() += feas.len() as u64 - 1;
            self.st.forks += feas.len() as u64 - 1;
        }
        for (g, e, m) in feas.iter().skip(1) {
            let mut o = self.clone_state(st);
            self.add(&mut o, *g, m.clone());
            Self::jump(&mut o, e);
            o.forks += 1;
            work.push(o);
        }
        let (g, e, m) = &feas[0];
        self.add(st, *g, m.clone());
        Self::jump(st, e);
        Ok(())
    }

    fn call(&mut self, st: &mut State, c: &'static CallI, work: &mut Vec<Box<State>>) -> Rs<()> {
        let f: *mut Frame = st.frames.last_mut().unwrap();
        let getv = |r: u32| -> V {
            unsafe {
                if r & CONST != 0 {
                    (&(*f).func.consts)[(r & !CONST) as usize].clone()
                } else {
                    (&(*f).regs)[r as usize].clone()
                }
            }
        };
        let fi = match &c.callee {
            Callee::Direct(i) => *i,
            Callee::Indirect(r) => {
                let v = getv(*r);
                let a = self.conc64(st, &v, work)?;
                if a < FUNC_BASE || a >= GLOBAL_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(Ctl::Err(format!("indirect call to {:#x}", a)));
                }
                ((a - FUNC_BASE) / 16) as u32
            }
            Callee::Asm(t) => {
                if t.is_empty() {
                    if c.dst != u32::MAX && !c.args.is_empty() {
                        let v = getv(c.args[0].0);
                        unsafe { (&mut (*f).regs)[c.dst as usize] = v };
                    }
                    return Ok(());
                }
                if t.starts_with("div") {
                    let d = ve(&getv(c.args[0].0), 64);
                    let hi = ve(&getv(c.args[1].0), 64);
                    let lo = ve(&getv(c.args[2].0), 64);
                    let (q, r) = if cval(hi) == Some(0) {
                        (bin(Op::UDiv, lo, d), bin(Op::URem, lo, d))
                    } else {
                        let n = concat(hi, lo);
                        let d = zext(d, 128);
                        (extract(bin(Op::UDiv, n, d), 0, 64), extract(bin(Op::URem, n, d), 0, 64))
                    };
                    // outputs: {rdx = remainder, rax = quotient}
                    unsafe { (&mut (*f).regs)[c.dst as usize] = V::A(Rc::new(vec![ev(r), ev(q)])) };
                    return Ok(());
                }
                return Err(Ctl::Err(format!("inline asm {:?}", t)));
            }
        };
        let mut fi = fi;
        if self.hs[fi as usize] == H::Unset {
            let d = &self.m.funcs[fi as usize];
            self.hs[fi as usize] = if d.start != 0 && self.hredir[fi as usize] == u32::MAX { H::Body } else if self.hredir[fi as usize] != u32::MAX { H::Body } else { classify(&d.name) };
            self.touched[fi as usize] = true;
        }
        let h = self.hs[fi as usize];
        if h == H::Body {
            if !self.touched[fi as usize] {
                self.touched[fi as usize] = true;
            }
            if self.hredir[fi as usize] != u32::MAX && st.frames.iter().rev().take(3).all(|f| *f.func.name != *self.m.funcs[self.hredir[fi as usize] as usize].name) {
                fi = self.hredir[fi as usize];
                self.touched[fi as usize] = true;
            }
            let g = match self.m.func(fi) {
                Some(g) => g,
                None => return Err(Ctl::Err(format!("no body for {}", self.m.funcs[fi as usize].name))),
            };
            if st.frames.len() > 4000 {
                return Err(Ctl::Err("call depth".into()));
            }
            let mut regs = self.pool.pop().unwrap_or_default();
            regs.clear();
            regs.resize(g.nregs as usize, V::C(0));
            for (i, (r, _)) in c.args.iter().enumerate() {
                if i < g.params.len() {
                    // parameters are the first registers in order
                    regs[i] = getv(*r);
                }
            }
            let fr = Frame {
                func: g,
                ip: g.blocks[0].as_ptr(),
                block: 0,
                regs,
                sp: st.sp,
                dst: c.dst,
                ret_edge: c.normal.as_ref(),
            };
            st.frames.push(fr);
            return Ok(());
        }
        let r = self.builtin(st, h, fi, c, &getv, work)?;
        let f: *mut Frame = st.frames.last_mut().unwrap();
        if c.dst != u32::MAX {
            if let Some(v) = r {
                unsafe { (&mut (*f).regs)[c.dst as usize] = v };
            }
        }
        if let Some(e) = &c.normal {
            Self::jump(st, e);
        }
        Ok(())
    }

    fn builtin(&mut self, st: &mut State, h: H, fi: u32, c: &'static CallI, getv: &dyn Fn(u32) -> V, work: &mut Vec<Box<State>>) -> Rs<Option<V>> {
        let arg = |i: usize| -> V { getv(c.args[i].0) };
        let wid = |i: usize| -> u16 { c.args[i].1.bits() };
        let two = |a: E, b: E| V::A(Rc::new(vec![ev(a), ev(b)]));
        // vectors are not expected in integer intrinsics
        if let (Some((_, T::Vec(..))), false) = (c.args.first(), matches!(h, H::RedOr | H::RedAnd | H::RedAdd | H::Nop)) {
            return self.vec_builtin(st, h, fi, c, getv);
        }
        Ok(Some(match h {
            H::Nop => return Ok(None),
            H::Ret0 => V::C(0),
            H::Ret1 => V::C(1),
            H::Expect | H::TlsAddr => arg(0),
            H::IsConst => V::C(0),
            H::Unknown | H::Unset | H::Body => return Err(Ctl::Err(format!("call to unmodelled function {}", self.m.funcs[fi as usize].name))),
            H::Trap => return Err(Ctl::Err("llvm.trap reached".into())),
            H::Abort => {
                if st.panic_ok {
                    self.st.panics_ok += 1;
                    self.end_path(st, "abort");
                    return Err(Ctl::Dead);
                }
                let m = st.model.clone();
                let u = st.unknown;
                self.violation(st, "abort".into(), &m, u);
                return Err(Ctl::Dead);
            }
            H::Exit => {
                self.end_path(st, "exit");
                return Err(Ctl::Dead);
            }
            H::Panic => {
                let mut loc = String::from("?");
                if let Some((r, T::Ptr)) = c.args.last().map(|(r, t)| (*r, t.clone())) {
                    if let V::C(p) = getv(r) {
                        if let (Ok(V::C(sp)), Ok(V::C(sl)), Ok(V::C(ln))) = (self.load(st, p, 64, 8), self.load(st, p + 8, 64, 8), self.load(st, p + 16, 32, 4)) {
                            if sl < 400 && sp > 0x10000 {
                                if let Ok(s) = self.text(st, &V::C(sp), &V::C(sl)) {
                                    loc = format!("{}:{}", s, ln);
                                }
                            }
                        }
                    }
                }
                if self.cfg.trace {
                    eprintln!("panic at {}", loc);
                    for f in st.frames.iter().rev().take(30) {
                        eprintln!("   at {}", f.func.name);
                    }
                }
                if st.panic_ok {
                    self.st.panics_ok += 1;
                    self.end_path(st, &format!("panic at {}", loc));
                    return Err(Ctl::Dead);
                }
                let m = st.model.clone();
                let u = st.unknown;
                self.violation(st, format!("panic at {}", loc), &m, u);
                self.end_path(st, &format!("panic at {}", loc));
                return Err(Ctl::Dead);
            }
            H::RustAlloc | H::RustAllocZ => {
                let (a, b) = (arg(0), arg(1));
                let s = self.conc64(st, &a, work)?;
                let al = self.conc64(st, &b, work)?;
                V::C(self.alloc(st, s, al)?)
            }
            H::RustDealloc => return Ok(None),
            H::RustRealloc => {
                let (p, o, al, n) = (arg(0), arg(1), arg(2), arg(3));
                let p = self.conc64(st, &p, work)?;
                let o = self.conc64(st, &o, work)?;
                let al = self.conc64(st, &al, work)?;
                let n = self.conc64(st, &n, work)?;
                if p == st.last_alloc && p + o.max(1) == st.heap && n >= o && p + n < HEAP_END {
                    st.heap = p + n.max(1);
                    return Ok(Some(V::C(p)));
                }
                let a = self.alloc(st, n, al)?;
                let k = o.min(n);
                if let Err(f) = st.mem.copy(&mut self.tlb, a, p, k) {
                    return Err(self.fault(st, f));
                }
                V::C(a)
            }
            H::Malloc => {
                let a = arg(0);
                let s = self.conc64(st, &a, work)?;
                V::C(self.alloc(st, s, 16)?)
            }
            H::Calloc => {
                let (a, b) = (arg(0), arg(1));
                let s = self.conc64(st, &a, work)?.wrapping_mul(self.conc64(st, &b, work)?);
                V::C(self.alloc(st, s, 16)?)
            }
            H::Realloc => return Err(Ctl::Err("realloc".into())),
            H::PosixMemalign => {
                let (p, al, n) = (arg(0), arg(1), arg(2));
                let p = self.conc64(st, &p, work)?;
                let al = self.conc64(st, &al, work)?;
                let n = self.conc64(st, &n, work)?;
                let a = self.alloc(st, n, al)?;
                self.store(st, p, &V::C(a), 64, 8)?;
                V::C(0)
            }
            H::Memcmp => {
                let (p, q, n) = (arg(0), arg(1), arg(2));
                let n = self.conc64(st, &n, work)?;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let p = self.conc64(st, &p, work)?;
                let q = self.conc64(st, &q, work)?;
                let x = match st.mem.read(&mut self.tlb, p, n as usize) {
                    Ok(x) => x,
                    Err(f) => return Err(self.fault(st, f)),
                };
                let y = match st.mem.read(&mut self.tlb, q, n as usize) {
                    Ok(x) => x,
                    Err(f) => return Err(self.fault(st, f)),
                };
                let bc = &*self.m.funcs[fi as usize].name == "bcmp";
                // common concrete prefix
                let mut r: Option<E> = None;
                let be = |b: &(u8, u32)| if b.1 != 0 { E(b.1) } else { konst(b.0 as u128, 8) };
                if bc {
                    let mut eq = tt();
                    for (a, b) in x.iter().zip(y.iter()) {
                        eq = bin(Op::And, eq, cmp(Op::Eq, be(a), be(b)));
                        if cval(eq) == Some(0) {
                            break;
                        }
                    }
                    r = Some(zext(not(eq), 32));
                } else {
                    let mut items = vec![];
                    for (a, b) in x.iter().zip(y.iter()) {
                        let eq = cmp(Op::Eq, be(a), be(b));
                        if cval(eq) == Some(1) {
                            continue;
                        }
                        items.push((eq, cmp(Op::Ult, be(a), be(b))));
                        if cval(eq) == Some(0) {
                            break;
                        }
                    }
                    for (eq, lt) in items.into_iter().rev() {
                        let d = ite(lt, konst(u32::MAX as u128, 32), konst(1, 32));
                        r = Some(match r {
                            None => ite(eq, konst(0, 32), d),
                            Some(k) => ite(eq, k, d),
                        });
                    }
                }
                ev(r.unwrap_or_else(|| konst(0, 32)))
            }
            H::Strlen => {
                let p = arg(0);
                let p = self.conc64(st, &p, work)?;
                let mut n = 0;
                loop {
                    match st.mem.byte(&mut self.tlb, p + n) {
                        Ok((0, 0)) => break,
                        Ok((_, 0)) => n += 1,
                        Ok(_) => return Err(Ctl::Err("strlen of symbolic data".into())),
                        Err(f) => return Err(self.fault(st, f)),
                    }
                }
                V::C(n)
            }
            H::IMemcpy | H::Memcpy => {
                let (d, s, n) = (arg(0), arg(1), arg(2));
                let n = self.conc64(st, &n, work)?;
                let d = self.conc64(st, &d, work)?;
                let s = self.conc64(st, &s, work)?;
                if n > 1 << 28 {
                    return Err(Ctl::Err("huge memcpy".into()));
                }
                if let Err(f) = st.mem.copy(&mut self.tlb, d, s, n) {
                    return Err(self.fault(st, f));
                }
                if h == H::IMemcpy {
                    return Ok(None);
                }
                V::C(d)
            }
            H::IMemset | H::Memset => {
                let (d, v, n) = (arg(0), arg(1), arg(2));
                let n = self.conc64(st, &n, work)?;
                let d = self.conc64(st, &d, work)?;
                if n > 1 << 28 {
                    return Err(Ctl::Err("huge memset".into()));
                }
                let e = extract(ve(&v, wid(1)), 0, 8);
                let r = match cval(e) {
                    Some(c) => st.mem.fill(&mut self.tlb, d, c as u8, 0, n),
                    None => st.mem.fill(&mut self.tlb, d, 0, e.0, n),
                };
                if let Err(f) = r {
                    return Err(self.fault(st, f));
                }
                if h == H::IMemset {
                    return Ok(None);
                }
                V::C(d)
            }
            H::Write => {
                let (fd, p, n) = (arg(0), arg(1), arg(2));
                let n = self.conc64(st, &n, work)?;
                let p = self.conc64(st, &p, work)?;
                if let V::C(1) = fd {
                    let mut b = vec![];
                    for i in 0..n {
                        match st.mem.byte(&mut self.tlb, p + i) {
                            Ok((v, 0)) => b.push(v),
                            Ok((_, e)) => {
                                // forking here would repeat the write
                                match self.forced(st, E(e)) {
                                    Some(v) => b.push(v as u8),
                                    None => return Err(Ctl::Err("symbolic byte written to stdout".into())),
                                }
                            }
                            Err(f) => return Err(self.fault(st, f)),
                        }
                    }
                    Rc::make_mut(&mut st.out).extend(b);
                } else if let V::C(fd) = fd {
                    // a file opened for writing: a new copy with the data added at the offset
                    if let Some((nm, off)) = st.fds.get(&(fd as i32)).cloned() {
                        let (a, len) = st.files[&nm];
                        let to = len.max(off + n);
                        let b = self.alloc(st, to.max(1), 16)?;
                        let r = st.mem.copy(&mut self.tlb, b, a, len).and_then(|_| st.mem.copy(&mut self.tlb, b + off, p, n));
                        if let Err(f) = r {
                            return Err(self.fault(st, f));
                        }
                        Rc::make_mut(&mut st.files).insert(nm.clone(), (b, to));
                        Rc::make_mut(&mut st.fds).insert(fd as i32, (nm, off + n));
                    }
                }
                V::C(n)
            }
            H::Writev => return Err(Ctl::Err("writev".into())),
            H::Open => {
                let p = arg(0);
                let p = self.conc64(st, &p, work)?;
                let mut n = 0;
                while st.mem.byte(&mut self.tlb, p + n).map(|b| b != (0, 0)).unwrap_or(false) {
                    n += 1;
                }
                let nm = self.text(st, &V::C(p), &V::C(n))?;
                let flags = arg(1);
                let flags = self.conc64(st, &flags, work)?;
                if flags & 0x200 != 0 || (flags & 0x40 != 0 && !st.files.contains_key(&nm)) {
                    let a = self.alloc(st, 1, 16)?;
                    Rc::make_mut(&mut st.files).insert(nm.clone(), (a, 0));
                }
                if st.files.contains_key(&nm) {
                    let fds = Rc::make_mut(&mut st.fds);
                    let fd = fds.keys().max().map(|x| x + 1).unwrap_or(100);
                    fds.insert(fd, (nm, 0));
                    V::C(fd as u64)
                } else {
                    self.set_errno(st, 2)?;
                    V::C(0xffff_ffff)
                }
            }
            H::Read => {
                let (fd, p, n) = (arg(0), arg(1), arg(2));
                let fd = self.conc64(st, &fd, work)? as i32;
                let p = self.conc64(st, &p, work)?;
                let n = self.conc64(st, &n, work)?;
                let ent = st.fds.get(&fd).cloned();
                let (nm, off) = match ent {
                    Some(x) => x,
                    None => return Err(Ctl::Err(format!("read from fd {}", fd))),
                };
                let (a, len) = st.files[&nm];
                let k = n.min(len - off);
                if let Err(f) = st.mem.copy(&mut self.tlb, p, a + off, k) {
                    return Err(self.fault(st, f));
                }
                Rc::make_mut(&mut st.fds).insert(fd, (nm, off + k));
                V::C(k)
            }
            H::Close => V::C(0),
            H::Stat => {
                self.set_errno(st, 38)?;
                V::C(0xffff_ffff)
            }
            H::Lseek => {
                self.set_errno(st, 29)?;
                V::C(u64::MAX)
            }
            H::Getrandom => {
                // (getrandom(buf, len, flags)) or syscall(SYS_getrandom, buf, len, flags)
                let sysc = &*self.m.funcs[fi as usize].name == "syscall";
                let k = if sysc { 1 } else { 0 };
                if sysc {
                    if let V::C(n) = arg(0) {
                        if n != 318 {
                            return Err(Ctl::Err(format!("syscall {}", n)));
                        }
                    }
                }
                let (p, n) = (arg(k), arg(k + 1));
                let p = self.conc64(st, &p, work)?;
                let n = self.conc64(st, &n, work)?;
                let mut s = self.cfg.vseed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                for i in 0..n {
                    s ^= s << 13;
                    s ^= s >> 7;
                    s ^= s << 17;
                    if let Err(f) = st.mem.set_byte(&mut self.tlb, p + i, s as u8, 0) {
                        return Err(self.fault(st, f));
                    }
                }
                V::C(n)
            }
            H::ClockGettime => {
                let p = arg(1);
                let p = self.conc64(st, &p, work)?;
                self.store(st, p, &V::C(1000), 64, 8)?;
                self.store(st, p + 8, &V::C(0), 64, 8)?;
                V::C(0)
            }
            H::Errno => V::C(STACK_BASE),
            H::GetEnv => V::C(0),
            H::Sysconf => V::C(4096),
            H::PthreadKey => {
                let p = arg(0);
                let p = self.conc64(st, &p, work)?;
                self.store(st, p, &V::C(1), 32, 4)?;
                V::C(0)
            }
            H::PthreadGetattr => V::C(0),
            H::AttrGetstack => {
                let (p, q) = (arg(1), arg(2));
                let p = self.conc64(st, &p, work)?;
                let q = self.conc64(st, &q, work)?;
                self.store(st, p, &V::C(0x1000), 64, 8)?;
                self.store(st, q, &V::C(0x7000_0000), 64, 8)?;
                V::C(0)
            }
            H::PsmSp => V::C(0x6000_0000),
            H::Sigaltstack => V::C(0),
            H::StackSave => V::C(st.sp),
            H::StackRestore => {
                if let V::C(p) = arg(0) {
                    st.sp = p;
                }
                return Ok(None);
            }
            H::Ceil | H::FLog2 | H::FFloor | H::FTrunc | H::FRound | H::FAbs => match arg(0) {
                V::C(x) => {
                    let x = f64::from_bits(x);
                    V::C(match h {
                        H::Ceil => x.ceil(),
                        H::FLog2 => x.log2(),
                        H::FFloor => x.floor(),
                        H::FTrunc => x.trunc(),
                        H::FRound => x.round(),
                        _ => x.abs(),
                    }
                    .to_bits())
                }
                _ => return Err(Ctl::Err("symbolic float".into())),
            },
            H::Fshl | H::Fshr => {
                let w = wid(0);
                let k = arg(2);
                let (a, b) = (arg(0), arg(1));
                let k = (self.conc64(st, &k, work)? % w as u64) as u16;
                let k = if h == H::Fshl { k } else { w - k };
                let (a, b) = (ve(&a, w), ve(&b, w));
                if k == 0 {
                    ev(a)
                } else if k == w {
                    ev(b)
                } else {
                    ev(concat(extract(a, 0, w - k), extract(b, w - k, k)))
                }
            }
            H::Cttz | H::Ctlz | H::Ctpop => {
                let w = wid(0);
                match arg(0) {
                    V::C(x) => V::C(match h {
                        H::Cttz => (x.trailing_zeros() as u64).min(w as u64),
                        H::Ctlz => x.leading_zeros() as u64 - (64 - w as u64),
                        _ => x.count_ones() as u64,
                    }),
                    v => {
                        let e = ve(&v, w);
                        let mut r = if h == H::Ctpop { konst(0, w) } else { konst(w as u128, w) };
                        for i in 0..w {
                            match h {
                                H::Ctpop => r = bin(Op::Add, r, zext(extract(e, i, 1), w)),
                                H::Ctlz => r = ite(extract(e, i, 1), konst((w - 1 - i) as u128, w), r),
                                _ => {
                                    let j = w - 1 - i;
                                    r = ite(extract(e, j, 1), konst(j as u128, w), r)
                                }
                            }
                        }
                        ev(r)
                    }
                }
            }
            H::Bswap => {
                let w = wid(0);
                let e = ve(&arg(0), w);
                let mut r: Option<E> = None;
                for i in (0..w / 8).rev() {
                    let b = extract(e, i * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(l) => concat(b, l),
                    });
                }
                ev(r.unwrap())
            }
            H::Bitrev => {
                let w = wid(0);
                let e = ve(&arg(0), w);
                let mut r: Option<E> = None;
                for i in (0..w).rev() {
                    let b = extract(e, i, 1);
                    r = Some(match r {
                        None => b,
                        Some(l) => concat(b, l),
                    });
                }
                ev(r.unwrap())
            }
            H::UMax | H::UMin | H::SMax | H::SMin => {
                let w = wid(0);
                let (a, b) = (ve(&arg(0), w), ve(&arg(1), w));
                let lt = if matches!(h, H::UMax | H::UMin) { cmp(Op::Ult, a, b) } else { cmp(Op::Slt, a, b) };
                ev(if matches!(h, H::UMax | H::SMax) { ite(lt, b, a) } else { ite(lt, a, b) })
            }
            H::Abs => {
                let w = wid(0);
                let a = ve(&arg(0), w);
                ev(ite(extract(a, w - 1, 1), bin(Op::Sub, konst(0, w), a), a))
            }
            H::UAddO | H::USubO | H::SAddO | H::SSubO | H::UMulO | H::SMulO => {
                let w = wid(0);
                let (a, b) = (ve(&arg(0), w), ve(&arg(1), w));
                let (r, o) = match h {
                    H::UAddO => {
                        let r = bin(Op::Add, a, b);
                        (r, cmp(Op::Ult, r, a))
                    }
                    H::USubO => (bin(Op::Sub, a, b), cmp(Op::Ult, a, b)),
                    H::SAddO | H::SSubO => {
                        let op = if h == H::SAddO { Op::Add } else { Op::Sub };
                        let r = bin(op, a, b);
                        let (sa, sb, sr) = (extract(a, w - 1, 1), extract(b, w - 1, 1), extract(r, w - 1, 1));
                        let d = bin(Op::Xor, sa, sr);
                        let o = if h == H::SAddO { bin(Op::And, not(bin(Op::Xor, sa, sb)), d) } else { bin(Op::And, bin(Op::Xor, sa, sb), d) };
                        (r, o)
                    }
                    _ => {
                        let r = bin(Op::Mul, a, b);
                        let o = if w <= 64 {
                            let (x, y) = if h == H::UMulO { (zext(a, 2 * w), zext(b, 2 * w)) } else { (sext(a, 2 * w), sext(b, 2 * w)) };
                            let p = bin(Op::Mul, x, y);
                            let back = if h == H::UMulO { zext(r, 2 * w) } else { sext(r, 2 * w) };
                            not(cmp(Op::Eq, p, back))
                        } else if let (Some(x), Some(y)) = (cval(a), cval(b)) {
                            konst(if h == H::UMulO { x.checked_mul(y).is_none() } else { (x as i128).checked_mul(y as i128).is_none() } as u128, 1)
                        } else {
                            return Err(Ctl::Err("128-bit symbolic mul overflow".into()));
                        };
                        (r, o)
                    }
                };
                two(r, o)
            }
            H::UAddSat => {
                let w = wid(0);
                let (a, b) = (ve(&arg(0), w), ve(&arg(1), w));
                let r = bin(Op::Add, a, b);
                ev(ite(cmp(Op::Ult, r, a), konst(!0, w), r))
            }
            H::USubSat => {
                let w = wid(0);
                let (a, b) = (ve(&arg(0), w), ve(&arg(1), w));
                ev(ite(cmp(Op::Ult, a, b), konst(0, w), bin(Op::Sub, a, b)))
            }
            H::SAddSat | H::SSubSat => return Err(Ctl::Err("signed saturating".into())),
            H::UCmp | H::SCmp => {
                let w = wid(0);
                let rw = c.ret.bits();
                let (a, b) = (ve(&arg(0), w), ve(&arg(1), w));
                let lt = if h == H::UCmp { cmp(Op::Ult, a, b) } else { cmp(Op::Slt, a, b) };
                let eq = cmp(Op::Eq, a, b);
                ev(ite(eq, konst(0, rw), ite(lt, konst(!0, rw), konst(1, rw))))
            }
            H::AddCarry | H::SubBorrow => {
                let w = wid(1);
                let ci = not(cmp(Op::Eq, ve(&arg(0), 8), konst(0, 8)));
                let (a, b) = (zext(ve(&arg(1), w), w + 1), zext(ve(&arg(2), w), w + 1));
                let ci = zext(ci, w + 1);
                let r = if h == H::AddCarry { bin(Op::Add, bin(Op::Add, a, b), ci) } else { bin(Op::Sub, bin(Op::Sub, a, b), ci) };
                two(zext(extract(r, w, 1), 8), extract(r, 0, w))
            }
            H::RedOr | H::RedAnd | H::RedAdd => {
                let (n, ew) = match &c.args[0].1 {
                    T::Vec(n, t) => (*n as u16, t.bits()),
                    _ => return Err(Ctl::Err("reduce".into())),
                };
                let e = ve(&arg(0), n * ew);
                let mut r = extract(e, 0, ew);
                for i in 1..n {
                    let x = extract(e, i * ew, ew);
                    r = bin(
                        match h {
                            H::RedOr => Op::Or,
                            H::RedAnd => Op::And,
                            _ => Op::Add,
                        },
                        r,
                        x,
                    );
                }
                ev(r)
            }
            // ------------------------------------------------------------ harness interface
            H::VNative => V::C(0),
            H::VSeed => V::C(self.cfg.vseed),
            H::VSym => {
                let (b, p, n) = (arg(0), arg(1), arg(2));
                let w = match b {
                    V::C(b) => b as u16,
                    _ => return Err(Ctl::Err("symbolic width".into())),
                };
                let mut name = self.text(st, &p, &n)?;
                let k = st.inputs.iter().filter(|(n, _)| *n == name || (n.starts_with(&name) && n[name.len()..].starts_with('#'))).count();
                if k > 0 {
                    name = format!("{}#{}", name, k);
                }
                let e = match self.symvars.get(&(name.clone(), w)) {
                    Some(&e) => e,
                    None => {
                        let e = var(name.clone(), w);
                        self.symvars.insert((name.clone(), w), e);
                        e
                    }
                };
                let vi = node(e).a;
                if st.model.len() <= vi as usize {
                    Rc::make_mut(&mut st.model).resize(vi as usize + 1, 0);
                }
                let fix = self.cfg.fix.iter().find(|f| f.0 == name).map(|f| f.1);
                Rc::make_mut(&mut st.inputs).push((name, vi));
                if let Some(x) = fix {
                    let c = cmp(Op::Eq, e, konst(x as u128, w));
                    match self.decide(st, c).1 {
                        None => return Err(Ctl::Dead),
                        Some(m) => self.add(st, c, m),
                    }
                }
                V::S(zext(e, 64))
            }
            H::VAssume => {
                let e = ne0(&arg(0), wid(0));
                let (_, t) = self.decide(st, e);
                match t {
                    None => {
                        self.st.assumed += 1;
                        return Err(Ctl::Dead);
                    }
                    Some(m) => {
                        self.add(st, e, m);
                        return Ok(None);
                    }
                }
            }
            H::VCheck => {
                let e = ne0(&arg(0), wid(0));
                let (p, n) = (arg(1), arg(2));
                let id = self.text(st, &p, &n)?;
                self.check(st, e, id)?;
                return Ok(None);
            }
            H::VPossible => {
                let e = ne0(&arg(0), wid(0));
                if let Some(v) = cval(e) {
                    return Ok(Some(V::C(v as u64)));
                }
                if self.evalm(st, e) != 0 {
                    return Ok(Some(V::C(1)));
                }
                let (r, m) = self.solve(st, &[e]);
                match r {
                    Res::Sat => {
                        st.model = m.unwrap();
                        V::C(1)
                    }
                    Res::Unsat => V::C(0),
                    Res::Unknown => return Err(Ctl::Err("solver unknown in vrf_possible".into())),
                }
            }
            H::VConc => {
                let a = arg(0);
                V::C(self.conc64(st, &a, work)?)
            }
            H::VMerge => {
                st.merge = matches!(arg(0), V::C(x) if x != 0);
                return Ok(None);
            }
            H::VPanicOk => {
                st.panic_ok = matches!(arg(0), V::C(x) if x != 0);
                return Ok(None);
            }
            H::VCover => {
                let (p, n) = (arg(0), arg(1));
                let id = self.text(st, &p, &n)?;
                *self.st.covers.entry(id).or_default() += 1;
                return Ok(None);
            }
            H::VNote => {
                let (p, n) = (arg(0), arg(1));
                let (p, n) = (self.conc64(st, &p, work)?, self.conc64(st, &n, work)?);
                let t = self.text(st, &V::C(p), &V::C(n.min(2000)))?;
                Rc::make_mut(&mut st.notes).push(t);
                return Ok(None);
            }
            H::VFail => {
                let (p, n) = (arg(0), arg(1));
                let id = self.text(st, &p, &n)?;
                self.st.checks.entry(id.clone()).or_default().0 += 1;
                let m = st.model.clone();
                let u = st.unknown;
                self.violation(st, id, &m, u);
                return Err(Ctl::Dead);
            }
            H::VDone => {
                self.end_path(st, "done");
                return Err(Ctl::Dead);
            }
            H::VIntNew => {
                let (p, n) = (arg(0), arg(1));
                let name = self.text(st, &p, &n)?;
                let e = match self.symvars.get(&(name.clone(), INT)) {
                    Some(&e) => e,
                    None => {
                        let e = var(name.clone(), INT);
                        self.symvars.insert((name.clone(), INT), e);
                        e
                    }
                };
                let vi = node(e).a;
                if st.model.len() <= vi as usize {
                    Rc::make_mut(&mut st.model).resize(vi as usize + 1, 0);
                }
                if !st.inputs.iter().any(|(n, _)| *n == name) {
                    Rc::make_mut(&mut st.inputs).push((name, vi));
                }
                V::C(e.0 as u64)
            }
            H::VIntConst => {
                let a = arg(0);
                let v = self.conc64(st, &a, work)?;
                V::C(iconst(v as i64 as i128).0 as u64)
            }
            H::VIntFrom => V::C(ifrom(ve(&arg(0), 64), true).0 as u64),
            H::VIntAdd | H::VIntMul | H::VIntLe | H::VIntEq => {
                let (a, b) = match (arg(0), arg(1)) {
                    (V::C(a), V::C(b)) => (E(a as u32), E(b as u32)),
                    _ => return Err(Ctl::Err("symbolic integer handle".into())),
                };
                match h {
                    H::VIntAdd => V::C(iadd(a, b).0 as u64),
                    H::VIntMul => V::C(imul(a, b).0 as u64),
                    H::VIntLe => ev(zext(ile(a, b), 8)),
                    _ => ev(zext(ieq(a, b), 8)),
                }
            }
            H::VIntIte => {
                let c = ne0(&arg(0), wid(0));
                let (a, b) = match (arg(1), arg(2)) {
                    (V::C(a), V::C(b)) => (E(a as u32), E(b as u32)),
                    _ => return Err(Ctl::Err("symbolic integer handle".into())),
                };
                V::C(iite(c, a, b).0 as u64)
            }
            H::VFile => {
                let (p, n, d, l) = (arg(0), arg(1), arg(2), arg(3));
                let name = self.text(st, &p, &n)?;
                let d = self.conc64(st, &d, work)?;
                let l = self.conc64(st, &l, work)?;
                let a = self.alloc(st, l, 16)?;
                if let Err(f) = st.mem.copy(&mut self.tlb, a, d, l) {
                    return Err(self.fault(st, f));
                }
                Rc::make_mut(&mut st.files).insert(name, (a, l));
                return Ok(None);
            }
            H::VOut => {
                // copy captured stdout into (buf, cap); returns its length
                let (p, n) = (arg(0), arg(1));
                let p = self.conc64(st, &p, work)?;
                let n = self.conc64(st, &n, work)?;
                let o = st.out.clone();
                let k = o.len().min(n as usize);
                if let Err(f) = st.mem.write_bytes(&mut self.tlb, p, &o[..k]) {
                    return Err(self.fault(st, f));
                }
                V::C(o.len() as u64)
            }
        }))
    }

    fn set_errno(&mut self, st: &mut State, v: u64) -> Rs<()> {
        self.store(st, STACK_BASE, &V::C(v), 32, 4)
    }

    fn vec_builtin(&mut self, _st: &mut State, h: H, fi: u32, c: &'static CallI, getv: &dyn Fn(u32) -> V) -> Rs<Option<V>> {
        let (n, ew) = match &c.args[0].1 {
            T::Vec(n, t) => (*n as u16, t.bits()),
            _ => unreachable!(),
        };
        let x = getv(c.args[0].0);
        if let H::UMax | H::UMin | H::SMax | H::SMin = h {
            let y = getv(c.args[1].0);
            return Ok(Some(vmap2(n, ew, ew, &x, &y, n * ew, &mut |a, b| {
                let lt = if matches!(h, H::UMax | H::UMin) { cmp(Op::Ult, a, b) } else { cmp(Op::Slt, a, b) };
                if matches!(h, H::UMax | H::SMax) {
                    ite(lt, b, a)
                } else {
                    ite(lt, a, b)
                }
            })));
        }
        Err(Ctl::Err(format!("vector intrinsic {}", self.m.funcs[fi as usize].name)))
    }
}

fn ne0(v: &V, w: u16) -> E {
    let e = ve(v, w);
    not(cmp(Op::Eq, e, konst(0, w)))
}

fn vmap2(n: u16, ew: u16, ow: u16, x: &V, y: &V, w: u16, f: &mut dyn FnMut(E, E) -> E) -> V {
    let (x, y) = (ve(x, w), ve(y, w));
    let mut r: Option<E> = None;
    // concrete fast path
    let mut acc: u128 = 0;
    let mut allc = true;
    let mut es = Vec::with_capacity(n as usize);
    for i in 0..n {
        let e = f(extract(x, i * ew, ew), extract(y, i * ew, ew));
        match cval(e) {
            Some(c) => acc |= c << (i * ow),
            None => allc = false,
        }
        es.push(e);
    }
    if allc {
        return mkc(acc, n * ow);
    }
    for e in es {
        r = Some(match r {
            None => e,
            Some(l) => concat(e, l),
        });
    }
    ev(r.unwrap())
}

fn bk(k: BinK) -> Op {
    match k {
        BinK::Add => Op::Add,
        BinK::Sub => Op::Sub,
        BinK::Mul => Op::Mul,
        BinK::UDiv => Op::UDiv,
        BinK::SDiv => Op::SDiv,
        BinK::URem => Op::URem,
        BinK::SRem => Op::SRem,
        BinK::And => Op::And,
        BinK::Or => Op::Or,
        BinK::Xor => Op::Xor,
        BinK::Shl => Op::Shl,
        BinK::LShr => Op::LShr,
        BinK::AShr => Op::AShr,
    }
}
#[inline(always)]
fn bin64(k: BinK, w: u16, x: u64, y: u64) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    (match k {
        BinK::Add => x.wrapping_add(y),
        BinK::Sub => x.wrapping_sub(y),
        BinK::Mul => x.wrapping_mul(y),
        BinK::And => x & y,
        BinK::Or => x | y,
        BinK::Xor => x ^ y,
        BinK::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        BinK::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        k => fold_bin(bk(k), w, x as u128, y as u128).unwrap() as u64,
    }) & m
}
#[inline(always)]
fn sx64(x: u64, w: u16) -> i64 {
    let s = 64 - w as u32;
    ((x << s) as i64) >> s
}
#[inline(always)]
fn icmp64(p: Pred, w: u16, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sx64(x, w) < sx64(y, w),
        Pred::Sle => sx64(x, w) <= sx64(y, w),
        Pred::Sgt => sx64(x, w) > sx64(y, w),
        Pred::Sge => sx64(x, w) >= sx64(y, w),
    }
}
fn icmp_e(p: Pred, x: E, y: E) -> E {
    match p {
        Pred::Eq => cmp(Op::Eq, x, y),
        Pred::Ne => not(cmp(Op::Eq, x, y)),
        Pred::Ult => cmp(Op::Ult, x, y),
        Pred::Ule => cmp(Op::Ule, x, y),
        Pred::Ugt => cmp(Op::Ult, y, x),
        Pred::Uge => cmp(Op::Ule, y, x),
        Pred::Slt => cmp(Op::Slt, x, y),
        Pred::Sle => cmp(Op::Sle, x, y),
        Pred::Sgt => cmp(Op::Slt, y, x),
        Pred::Sge => cmp(Op::Sle, y, x),
    }
}
fn fbin(op: u8, w: u16, x: u64, y: u64) -> u64 {
    // op is the second letter of the mnemonic: fAdd, fSub, fMul, fDiv, fRem
    if w == 64 {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        (match op {
            b'a' => a + b,
            b's' => a - b,
            b'm' => a * b,
            b'd' => a / b,
            _ => a % b,
        })
        .to_bits()
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op {
            b'a' => a + b,
            b's' => a - b,
            b'm' => a * b,
            b'd' => a / b,
            _ => a % b,
        })
        .to_bits() as u64
    }
}
fn fcmp(p: &str, w: u16, x: u64, y: u64) -> bool {
    let (a, b) = if w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
    let un = a.is_nan() || b.is_nan();
    match p {
        "false" => false,
        "true" => true,
        "ord" => !un,
        "uno" => un,
        p => {
            let r = match &p[1..] {
                "eq" => a == b,
                "ne" => a != b,
                "lt" => a < b,
                "le" => a <= b,
                "gt" => a > b,
                _ => a >= b,
            };
            if p.starts_with('o') {
                !un && r
            } else {
                un || r
            }
        }
    }
}
fn fcast(k: CastK, fw: u16, tw: u16, x: u128) -> Option<u128> {
    let f = |x: u128| if fw == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
    let b = |v: f64| if tw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
    Some(match k {
        CastK::UiToFp => b(x as f64),
        CastK::SiToFp => b(sx(x, fw) as f64),
        CastK::FpToUi => (f(x) as u128) & mask(tw),
        CastK::FpToSi => (f(x) as i128) as u128 & mask(tw),
        CastK::FpExt | CastK::FpTrunc => b(f(x)),
        _ => return None,
    })
}

/// immediate post-dominators over blocks; u32::MAX = function return. Blocks from which no return is
/// reachable (panics) are ignored.
fn ipdoms(f: &Func) -> Vec<u32> {
    let n = f.blocks.len();
    let exit = n;
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in f.blocks.iter().enumerate() {
        match b.last() {
            Some(Inst::Br(e)) => succ[i].push(e.to as usize),
            Some(Inst::CondBr { t, f, .. }) => {
                succ[i].push(t.to as usize);
                succ[i].push(f.to as usize);
            }
            Some(Inst::Switch { def, cases, .. }) => {
                succ[i].push(def.to as usize);
                for c in cases.iter() {
                    succ[i].push(c.1.to as usize);
                }
            }
            Some(Inst::Ret(_)) => succ[i].push(exit),
            Some(Inst::Call(c)) => {
                if let Some(e) = &c.normal {
                    succ[i].push(e.to as usize)
                }
            }
            _ => {}
        }
    }
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        for &s in &succ[i] {
            pred[s].push(i);
        }
    }
    let mut live = vec![false; n + 1];
    let mut st = vec![exit];
    // post-order on the reverse graph
    let mut order = vec![];
    let mut idx = vec![0usize; n + 1];
    live[exit] = true;
    while let Some(&x) = st.last() {
        if idx[x] < pred[x].len() {
            let p = pred[x][idx[x]];
            idx[x] += 1;
            if !live[p] {
                live[p] = true;
                st.push(p);
            }
        } else {
            order.push(x);
            st.pop();
        }
    }
    let mut num = vec![0usize; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut ip = vec![usize::MAX; n + 1];
    ip[exit] = exit;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().rev() {
            if x == exit {
                continue;
            }
            let mut nw = usize::MAX;
            for &s in &succ[x] {
                if !live[s] || ip[s] == usize::MAX {
                    continue;
                }
                nw = if nw == usize::MAX {
                    s
                } else {
                    let (mut a, mut b) = (s, nw);
                    while a != b {
                        while num[a] < num[b] {
                            a = ip[a];
                        }
                        while num[b] < num[a] {
                            b = ip[b];
                        }
                    }
                    a
                };
            }
            if nw != usize::MAX && ip[x] != nw {
                ip[x] = nw;
                ch = true;
            }
        }
    }
    ip.into_iter().take(n).map(|x| if x >= exit { u32::MAX } else { x as u32 }).collect()
}

pub fn sanity_full() -> Dom {
    FULL
}
