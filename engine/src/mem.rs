//! Copy-on-write flat memory: 4 KiB pages in 2 MiB directories; each byte is concrete or an 8-bit expression.
use crate::expr::*;
use std::rc::Rc;

pub const PG: usize = 4096;
pub const NDIR: usize = 4096; // 8 GiB of address space

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PG],
    pub s: Option<Box<[u32; PG]>>,
}
type Dir = [Option<Rc<Page>>; 512];

#[derive(Clone)]
pub struct Mem {
    dirs: Vec<Option<Rc<Dir>>>,
}

pub enum Fault {
    Unmapped(u64),
}

const TL: usize = 256;
pub struct Tlb {
    r: [(u64, *const Page); TL],
    w: [(u64, *mut Page); TL],
}
impl Tlb {
    pub fn new() -> Box<Tlb> {
        Box::new(Tlb { r: [(u64::MAX, std::ptr::null()); TL], w: [(u64::MAX, std::ptr::null_mut()); TL] })
    }
    pub fn flush(&mut self) {
        for e in self.r.iter_mut() {
            e.0 = u64::MAX
        }
        for e in self.w.iter_mut() {
            e.0 = u64::MAX
        }
    }
}

impl Mem {
    pub fn new() -> Mem {
        Mem { dirs: vec![None; NDIR] }
    }
    #[inline(always)]
    fn page_r(&self, t: &mut Tlb, pn: u64) -> Result<*const Page, Fault> {
        let k = pn as usize & (TL - 1);
        if t.r[k].0 == pn {
            return Ok(t.r[k].1);
        }
        let p = self.page_slow(pn)?;
        t.r[k] = (pn, p);
        Ok(p)
    }
    fn page_slow(&self, pn: u64) -> Result<*const Page, Fault> {
        let d = (pn >> 9) as usize;
        if d >= NDIR || pn < 0x1_0000 {
            return Err(Fault::Unmapped(pn << 12));
        }
        if let Some(d) = &self.dirs[d] {
            if let Some(p) = &d[(pn & 511) as usize] {
                return Ok(&**p as *const Page);
            }
        }
        static mut ZERO: Option<&'static Page> = None;
        unsafe {
            let z = *(*std::ptr::addr_of_mut!(ZERO)).get_or_insert_with(|| Box::leak(Box::new(Page { d: [0; PG], s: None })));
            Ok(z as *const Page)
        }
    }
    #[inline(always)]
    fn page_w(&mut self, t: &mut Tlb, pn: u64) -> Result<*mut Page, Fault> {
        let k = pn as usize & (TL - 1);
        if t.w[k].0 == pn {
            return Ok(t.w[k].1);
        }
        let p = self.page_w_slow(pn)?;
        t.w[k] = (pn, p);
        t.r[k] = (pn, p);
        Ok(p)
    }
    fn page_w_slow(&mut self, pn: u64) -> Result<*mut Page, Fault> {
        let d = (pn >> 9) as usize;
        if d >= NDIR || pn < 0x1_0000 {
            return Err(Fault::Unmapped(pn << 12));
        }
        let dir = self.dirs[d].get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
        let dir = Rc::make_mut(dir);
        let p = dir[(pn & 511) as usize].get_or_insert_with(|| Rc::new(Page { d: [0; PG], s: None }));
        Ok(Rc::make_mut(p) as *mut Page)
    }
    /// fast concrete load of up to 8 bytes within a page
    #[inline(always)]
    pub fn load_fast(&self, t: &mut Tlb, a: u64, n: usize) -> Option<u64> {
        let o = a as usize & (PG - 1);
        if o + 8 > PG {
            return None;
        }
        let p = match self.page_r(t, a >> 12) {
            Ok(p) => unsafe { &*p },
            Err(_) => return None,
        };
        if let Some(s) = &p.s {
            for i in 0..n {
                if s[o + i] != 0 {
                    return None;
                }
            }
        }
        let v = unsafe { std::ptr::read_unaligned(p.d.as_ptr().add(o) as *const u64) };
        Some(if n == 8 { v } else { v & ((1u64 << (8 * n)) - 1) })
    }
    #[inline(always)]
    pub fn store_fast(&mut self, t: &mut Tlb, a: u64, n: usize, v: u64) -> bool {
        let o = a as usize & (PG - 1);
        if o + n > PG {
            return false;
        }
        let p = match self.page_w(t, a >> 12) {
            Ok(p) => unsafe { &mut *p },
            Err(_) => return false,
        };
        if let Some(s) = p.s.as_mut() {
            s[o..o + n].iter_mut().for_each(|x| *x = 0);
        }
        let b = v.to_le_bytes();
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.d.as_mut_ptr().add(o), n) };
        true
    }
    /// a byte: concrete value, or expression id (non-zero)
    #[inline]
    pub fn byte(&self, t: &mut Tlb, a: u64) -> Result<(u8, u32), Fault> {
        let p = unsafe { &*self.page_r(t, a >> 12)? };
        let o = a as usize & (PG - 1);
        Ok((p.d[o], p.s.as_ref().map(|s| s[o]).unwrap_or(0)))
    }
    #[inline]
    pub fn set_byte(&mut self, t: &mut Tlb, a: u64, v: u8, e: u32) -> Result<(), Fault> {
        let p = unsafe { &mut *self.page_w(t, a >> 12)? };
        let o = a as usize & (PG - 1);
        p.d[o] = v;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PG]))[o] = e;
        } else if let Some(s) = p.s.as_mut() {
            s[o] = 0;
        }
        Ok(())
    }
    pub fn read(&self, t: &mut Tlb, a: u64, n: usize) -> Result<Vec<(u8, u32)>, Fault> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(self.byte(t, a + i as u64)?);
        }
        Ok(v)
    }
    pub fn copy(&mut self, t: &mut Tlb, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s {
            return Ok(());
        }
        // page-wise fast path for concrete data
        let mut tmp: Vec<u8> = Vec::with_capacity(n as usize);
        let mut ok = true;
        let mut a = s;
        while a < s + n {
            let p = unsafe { &*self.page_r(t, a >> 12)? };
            if p.s.is_some() {
                ok = false;
                break;
            }
            let o = a as usize & (PG - 1);
            let k = (PG - o).min((s + n - a) as usize);
            tmp.extend_from_slice(&p.d[o..o + k]);
            a += k as u64;
        }
        if ok {
            return self.write_bytes(t, d, &tmp);
        }
        let v = self.read(t, s, n as usize)?;
        for (i, (b, e)) in v.into_iter().enumerate() {
            self.set_byte(t, d + i as u64, b, e)?;
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, t: &mut Tlb, d: u64, b: &[u8]) -> Result<(), Fault> {
        let mut a = d;
        let mut i = 0;
        while i < b.len() {
            let p = unsafe { &mut *self.page_w(t, a >> 12)? };
            let o = a as usize & (PG - 1);
            let k = (PG - o).min(b.len() - i);
            p.d[o..o + k].copy_from_slice(&b[i..i + k]);
            if let Some(s) = p.s.as_mut() {
                s[o..o + k].iter_mut().for_each(|x| *x = 0);
            }
            a += k as u64;
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, t: &mut Tlb, d: u64, v: u8, e: u32, n: u64) -> Result<(), Fault> {
        if e == 0 {
            let b = vec![v; n as usize];
            return self.write_bytes(t, d, &b);
        }
        for i in 0..n {
            self.set_byte(t, d + i, v, e)?;
        }
        Ok(())
    }
    /// merge `o` into self: bytes become ite(g, self, o)
    pub fn merge(&mut self, o: &Mem, g: E, dead: (u64, u64)) -> usize {
        let mut n = 0;
        for di in 0..NDIR {
            let same = match (&self.dirs[di], &o.dirs[di]) {
                (None, None) => true,
                (Some(a), Some(b)) => Rc::ptr_eq(a, b),
                _ => false,
            };
            if same {
                continue;
            }
            for pi in 0..512 {
                let base = ((di as u64) << 21) + ((pi as u64) << 12);
                if base >= dead.0 && base + PG as u64 <= dead.1 {
                    continue;
                }
                let pb = o.dirs[di].as_ref().and_then(|d| d[pi].clone());
                let pa = self.dirs[di].as_ref().and_then(|d| d[pi].clone());
                match (&pa, &pb) {
                    (None, None) => continue,
                    (Some(a), Some(b)) if Rc::ptr_eq(a, b) => continue,
                    _ => {}
                }
                let z = Rc::new(Page { d: [0; PG], s: None });
                let a = pa.unwrap_or_else(|| z.clone());
                let b = pb.unwrap_or(z);
                if a.s.is_none() && b.s.is_none() && a.d == b.d {
                    continue;
                }
                let mut np: Page = (*a).clone();
                let mut ch = false;
                for k in 0..PG {
                    if base + k as u64 >= dead.0 && (base + k as u64) < dead.1 {
                        continue;
                    }
                    let ea = a.s.as_ref().map(|s| s[k]).unwrap_or(0);
                    let eb = b.s.as_ref().map(|s| s[k]).unwrap_or(0);
                    if ea == eb && (ea != 0 || a.d[k] == b.d[k]) {
                        continue;
                    }
                    let xa = if ea != 0 { E(ea) } else { konst(a.d[k] as u128, 8) };
                    let xb = if eb != 0 { E(eb) } else { konst(b.d[k] as u128, 8) };
                    let m = ite(g, xa, xb);
                    ch = true;
                    n += 1;
                    match cval(m) {
                        Some(c) => {
                            np.d[k] = c as u8;
                            if let Some(s) = np.s.as_mut() {
                                s[k] = 0
                            }
                        }
                        None => {
                            np.s.get_or_insert_with(|| Box::new([0; PG]))[k] = m.0;
                        }
                    }
                }
                if ch {
                    let dir = self.dirs[di].get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
                    Rc::make_mut(dir)[pi] = Some(Rc::new(np));
                }
            }
        }
        n
    }
}
