//! Copy-on-write linear memory with byte-granular symbolic contents.
use crate::expr::{Arena, E};
use rustc_hash::FxHashMap;
use std::rc::Rc;

pub const PG: usize = 4096;

#[derive(Clone)]
pub struct Page {
    data: [u8; PG],
    /// byte `k` of expression `e`
    sym: Option<Box<FxHashMap<u16, (E, u8)>>>,
}

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Rc<Page>>,
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Val {
    pub c: u64,
    pub e: E,
}
impl Val {
    pub fn c(c: u64) -> Val {
        Val { c, e: 0 }
    }
}

impl Mem {
    pub fn new(wasm_pages: u32) -> Mem {
        let zero = Rc::new(Page { data: [0; PG], sym: None });
        Mem { pages: vec![zero; wasm_pages as usize * 16] }
    }
    pub fn bytes(&self) -> u64 {
        (self.pages.len() * PG) as u64
    }
    pub fn wasm_pages(&self) -> u32 {
        (self.pages.len() / 16) as u32
    }
    pub fn grow(&mut self, by: u32) {
        let zero = Rc::new(Page { data: [0; PG], sym: None });
        let n = self.pages.len() + by as usize * 16;
        self.pages.resize(n, zero);
    }

    /// Concrete fast path; `None` when symbolic bytes are involved.
    #[inline(always)]
    pub fn load_c(&self, addr: u64, n: u32) -> Option<u64> {
        let off = addr as usize & (PG - 1);
        if off + n as usize <= PG {
            let p = &*self.pages[addr as usize / PG];
            if p.sym.is_none() {
                unsafe {
                    let q = p.data.as_ptr().add(off);
                    return Some(match n {
                        1 => *q as u64,
                        2 => (q as *const u16).read_unaligned() as u64,
                        4 => (q as *const u32).read_unaligned() as u64,
                        _ => (q as *const u64).read_unaligned(),
                    });
                }
            }
        }
        self.load_slow(addr, n)
    }

    fn load_slow(&self, addr: u64, n: u32) -> Option<u64> {
        let mut v = 0u64;
        for k in 0..n as u64 {
            let a = addr + k;
            let p = &*self.pages[a as usize / PG];
            let off = a as usize & (PG - 1);
            if let Some(s) = &p.sym
                && s.contains_key(&(off as u16))
            {
                return None;
            }
            v |= (p.data[off] as u64) << (8 * k);
        }
        Some(v)
    }

    pub fn byte(&self, a: u64) -> (u8, Option<(E, u8)>) {
        let p = &*self.pages[a as usize / PG];
        let off = a as usize & (PG - 1);
        let s = p.sym.as_ref().and_then(|s| s.get(&(off as u16)).copied());
        (p.data[off], s)
    }

    /// Symbolic load of `n` bytes (little endian), width `8 * n`.
    pub fn load_s(&self, ar: &mut Arena, addr: u64, n: u32) -> E {
        let first = self.byte(addr);
        if let (_, Some((e, 0))) = first
            && ar.width(e) as u32 == 8 * n
            && (1..n as u64).all(|k| self.byte(addr + k).1 == Some((e, k as u8)))
        {
            return e;
        }
        let mut acc = 0;
        for k in 0..n as u64 {
            let (c, s) = self.byte(addr + k);
            let b = match s {
                Some((e, i)) => ar.extract(e, 8 * i, 8),
                None => ar.k(c as u64, 8),
            };
            acc = if k == 0 { b } else { ar.concat(b, acc) };
        }
        acc
    }

    #[inline(always)]
    pub fn store_c(&mut self, addr: u64, n: u32, v: u64) {
        let off = addr as usize & (PG - 1);
        if off + n as usize <= PG {
            let p = Rc::make_mut(&mut self.pages[addr as usize / PG]);
            if p.sym.is_none() {
                unsafe {
                    let q = p.data.as_mut_ptr().add(off);
                    match n {
                        1 => *q = v as u8,
                        2 => (q as *mut u16).write_unaligned(v as u16),
                        4 => (q as *mut u32).write_unaligned(v as u32),
                        _ => (q as *mut u64).write_unaligned(v),
                    }
                }
                return;
            }
        }
        for k in 0..n as u64 {
            self.set_byte(addr + k, (v >> (8 * k)) as u8, None);
        }
    }

    pub fn set_byte(&mut self, a: u64, c: u8, s: Option<(E, u8)>) {
        let p = Rc::make_mut(&mut self.pages[a as usize / PG]);
        let off = a as usize & (PG - 1);
        p.data[off] = c;
        match s {
            Some(x) => {
                p.sym.get_or_insert_with(Default::default).insert(off as u16, x);
            }
            None => {
                if let Some(m) = &mut p.sym {
                    m.remove(&(off as u16));
                    if m.is_empty() {
                        p.sym = None;
                    }
                }
            }
        }
    }

    /// Store the low `n` bytes of `e`; `c` is the value under the current model (informational).
    pub fn store_s(&mut self, ar: &mut Arena, addr: u64, n: u32, e: E) {
        let w = ar.width(e) as u32;
        let e = if w > 8 * n { ar.extract(e, 0, (8 * n) as u8) } else { e };
        if let Some(v) = ar.cst(e) {
            self.store_c(addr, n, v);
            return;
        }
        for k in 0..n as u64 {
            if ar.ones[e as usize] >> (8 * k) & 0xff == 0 {
                self.set_byte(addr + k, 0, None);
            } else {
                self.set_byte(addr + k, 0, Some((e, k as u8)));
            }
        }
    }

    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        let fwd = d < s;
        let mut done = 0;
        while done < n {
            // largest run that stays within one page on both sides
            let (so, dof);
            let run;
            if fwd {
                so = s + done;
                dof = d + done;
                run = (PG as u64 - so % PG as u64)
                    .min(PG as u64 - dof % PG as u64)
                    .min(n - done);
            } else {
                let se = s + n - done;
                let de = d + n - done;
                let a = ((se - 1) % PG as u64) + 1;
                let b = ((de - 1) % PG as u64) + 1;
                run = a.min(b).min(n - done);
                so = se - run;
                dof = de - run;
            }
            let sp = self.pages[so as usize / PG].clone();
            let dp_sym = self.pages[dof as usize / PG].sym.is_some();
            if sp.sym.is_none() && !dp_sym {
                let same = so as usize / PG == dof as usize / PG;
                let (o1, o2, r) = (so as usize % PG, dof as usize % PG, run as usize);
                if same {
                    drop(sp);
                    let p = Rc::make_mut(&mut self.pages[dof as usize / PG]);
                    p.data.copy_within(o1..o1 + r, o2);
                } else {
                    let p = Rc::make_mut(&mut self.pages[dof as usize / PG]);
                    p.data[o2..o2 + r].copy_from_slice(&sp.data[o1..o1 + r]);
                }
            } else {
                drop(sp);
                for k in 0..run {
                    let k = if fwd { k } else { run - 1 - k };
                    let (c, sy) = self.byte(so + k);
                    self.set_byte(dof + k, c, sy);
                }
            }
            done += run;
        }
    }

    pub fn write(&mut self, at: u64, bytes: &[u8]) {
        for (i, b) in bytes.iter().enumerate() {
            self.set_byte(at + i as u64, *b, None);
        }
    }
}
