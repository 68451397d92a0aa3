//! Interface between a harness and the symbolic engine (`symll`), plus its native replay implementation.
//!
//! In the engine the `vrf_*` functions are declarations it implements; natively (replay) they read the
//! values of the symbolic inputs from a replay file and report the outcome of every check.
#![allow(dead_code)]

pub mod native {
    use std::cell::RefCell;
    use std::collections::{HashMap, HashSet};
    thread_local! {
        pub static VALS: RefCell<HashMap<String, i128>> = RefCell::new(HashMap::new());
        pub static SEEN: RefCell<HashMap<String, usize>> = RefCell::new(HashMap::new());
        pub static COVERS: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
        pub static INTS: RefCell<Vec<i128>> = RefCell::new(Vec::new());
    }
    fn s<'a>(p: *const u8, n: usize) -> &'a str {
        unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap() }
    }
    pub fn load(path: &str) {
        for l in std::fs::read_to_string(path).expect("replay file").lines() {
            if let Some((k, v)) = l.split_once('\t') {
                if k == "!" {
                    continue;
                }
                VALS.with(|m| {
                    m.borrow_mut()
                        .insert(k.into(), v.parse().expect("replay value"))
                });
            }
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_native() -> u32 {
        1
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_seed() -> u64 {
        1
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_sym(bits: u32, p: *const u8, n: usize) -> u64 {
        let base = s(p, n).to_string();
        let k = SEEN.with(|m| {
            let mut m = m.borrow_mut();
            let e = m.entry(base.clone()).or_insert(0);
            *e += 1;
            *e - 1
        });
        let name = if k > 0 {
            format!("{}#{}", base, k)
        } else {
            base
        };
        let v = VALS.with(|m| m.borrow().get(&name).copied().unwrap_or(0)) as u64;
        eprintln!("replay: {} = {}", name, v);
        if bits >= 64 {
            v
        } else {
            v & ((1u64 << bits) - 1)
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_assume(c: u8) {
        if c == 0 {
            println!("REPLAY-ASSUME-FALSE");
            std::process::exit(4)
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_check(c: u8, p: *const u8, n: usize) {
        if c == 0 {
            println!("REPLAY-FAIL {}", s(p, n));
            std::process::exit(1)
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_fail(p: *const u8, n: usize) {
        println!("REPLAY-FAIL {}", s(p, n));
        std::process::exit(1)
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_possible(c: u8) -> u8 {
        c
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_concretize(x: u64) -> u64 {
        x
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_merge(_on: u32) {}
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_panic_ok(_on: u32) {}
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_cover(p: *const u8, n: usize) {
        COVERS.with(|c| c.borrow_mut().insert(s(p, n).to_string()));
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_note(p: *const u8, n: usize) {
        eprintln!("note: {}", s(p, n));
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_done() {
        println!("REPLAY-OK");
        std::process::exit(0)
    }
    fn int(v: i128) -> u32 {
        INTS.with(|i| {
            let mut i = i.borrow_mut();
            i.push(v);
            i.len() as u32 - 1
        })
    }
    fn iv(i: u32) -> i128 {
        INTS.with(|v| v.borrow()[i as usize])
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_new(p: *const u8, n: usize) -> u32 {
        let v = VALS.with(|m| m.borrow().get(s(p, n)).copied().unwrap_or(0));
        eprintln!("replay: {} = {}", s(p, n), v);
        int(v)
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_const(v: i64) -> u32 {
        int(v as i128)
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_from(v: i64) -> u32 {
        int(v as i128)
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_add(a: u32, b: u32) -> u32 {
        int(iv(a) + iv(b))
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_mul(a: u32, b: u32) -> u32 {
        int(iv(a) * iv(b))
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_le(a: u32, b: u32) -> u8 {
        (iv(a) <= iv(b)) as u8
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_eq(a: u32, b: u32) -> u8 {
        (iv(a) == iv(b)) as u8
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_int_ite(c: u8, a: u32, b: u32) -> u32 {
        if c != 0 {
            a
        } else {
            b
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_file(p: *const u8, n: usize, d: *const u8, l: usize) {
        // replays run in a scratch directory
        let name = s(p, n).trim_start_matches("./");
        assert!(!name.contains('/') && !name.contains(".."));
        std::fs::write(name, unsafe { std::slice::from_raw_parts(d, l) }).unwrap();
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn vrf_stdout(_p: *mut u8, _n: usize) -> usize {
        0
    }
}
use native as n;

pub fn native() -> bool {
    n::vrf_native() != 0
}
pub fn bits(w: u32, name: &str) -> u64 {
    n::vrf_sym(w, name.as_ptr(), name.len())
}
pub fn byte(name: &str) -> u8 {
    bits(8, name) as u8
}
pub fn bit(name: &str) -> u8 {
    bits(1, name) as u8
}
/// a value in 0..n (n <= 256), still symbolic
pub fn below(n: u64, name: &str) -> u64 {
    let mut w = 1;
    while (1 << w) < n {
        w += 1;
    }
    let v = bits(w, name);
    assume(v < n);
    v
}
/// a value in 0..n, one execution path per value
pub fn choose(n: u64, name: &str) -> u64 {
    conc(below(n, name))
}
/// the larger family of the thorough tier (the quick tier fixes this input to 0)
pub fn deep() -> bool {
    choose(2, "deep") == 1
}
pub fn assume(c: bool) {
    n::vrf_assume(c as u8)
}
pub fn check(c: bool, id: &str) {
    n::vrf_check(c as u8, id.as_ptr(), id.len())
}
pub fn check8(c: u8, id: &str) {
    n::vrf_check(c, id.as_ptr(), id.len())
}
pub fn fail(id: &str) {
    n::vrf_fail(id.as_ptr(), id.len())
}
pub fn possible(c: u8) -> bool {
    n::vrf_possible(c) != 0
}
pub fn assume8(c: u8) {
    n::vrf_assume(c)
}
pub fn conc(x: u64) -> u64 {
    n::vrf_concretize(x)
}
pub fn merge(on: bool) {
    n::vrf_merge(on as u32)
}
pub fn panic_ok(on: bool) {
    n::vrf_panic_ok(on as u32)
}
pub fn cover(id: &str) {
    n::vrf_cover(id.as_ptr(), id.len())
}
pub fn note(s: &str) {
    n::vrf_note(s.as_ptr(), s.len())
}
pub fn done() {
    n::vrf_done()
}
#[derive(Clone, Copy)]
pub struct Int(pub u32);
impl Int {
    pub fn new(name: &str) -> Int {
        Int(n::vrf_int_new(name.as_ptr(), name.len()))
    }
    pub fn konst(v: i64) -> Int {
        Int(n::vrf_int_const(v))
    }
    /// from a possibly symbolic machine integer
    pub fn from(v: i64) -> Int {
        Int(n::vrf_int_from(v))
    }
    pub fn add(self, o: Int) -> Int {
        Int(n::vrf_int_add(self.0, o.0))
    }
    pub fn mul(self, o: Int) -> Int {
        Int(n::vrf_int_mul(self.0, o.0))
    }
    pub fn neg(self) -> Int {
        Int::konst(-1).mul(self)
    }
    pub fn sub(self, o: Int) -> Int {
        self.add(o.neg())
    }
    pub fn le(self, o: Int) -> u8 {
        n::vrf_int_le(self.0, o.0)
    }
    pub fn lt(self, o: Int) -> u8 {
        o.le(self) ^ 1
    }
    pub fn eq(self, o: Int) -> u8 {
        n::vrf_int_eq(self.0, o.0)
    }
    pub fn ite(c: u8, a: Int, b: Int) -> Int {
        Int(n::vrf_int_ite(c, a.0, b.0))
    }
}
pub fn file(name: &str, data: &[u8]) {
    n::vrf_file(name.as_ptr(), name.len(), data.as_ptr(), data.len())
}
pub fn stdout(buf: &mut [u8]) -> usize {
    n::vrf_stdout(buf.as_mut_ptr(), buf.len())
}
