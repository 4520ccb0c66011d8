//! Hash-consed symbolic expressions over bit vectors and booleans.
use rustc_hash::FxHashMap;
use std::rc::Rc;

/// Expression handle. `0` means "no expression" (the value is concrete).
pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[rustfmt::skip]
pub enum BO {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Rotl, Rotr,
    // boolean results
    Eq, Ult, Ule, Slt, Sle, FEq, FLt, FLe, BAnd, BOr,
    FAdd, FSub, FMul, FDiv, FMin, FMax, FCopy,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[rustfmt::skip]
pub enum UO {
    Not, // boolean
    Clz, Ctz, Popcnt,
    FAbs, FNeg, FCeil, FFloor, FTrunc, FNearest, FSqrt,
    /// float -> int saturating
    ToS, ToU,
    /// int -> float
    FromS, FromU,
    Demote, Promote,
    Zext, Sext,
    /// boolean -> 0/1
    B2I,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u64),
    /// identifier and, for bytes, the initial range
    Var(u32, u8, u8),
    Un(UO, E),
    Bin(BO, E, E),
    Ite(E, E, E),
    /// low bit, the width is the node's width
    Extract(E, u8),
    /// value of a table at an index expression; indexes outside are infeasible
    Lookup(E, Rc<[(u64, u64)]>),
}

pub struct Arena {
    pub nodes: Vec<N>,
    pub w: Vec<u8>,
    /// variables below, as `id << 16 | lo << 8 | hi` (an empty range for wide ones)
    pub sup: Vec<Rc<[u32]>>,
    /// whether a float operation occurs below
    pub fp: Vec<bool>,
    /// bits that may be one
    pub ones: Vec<u64>,
    map: FxHashMap<(N, u8), E>,
    /// extractions done before
    parts: FxHashMap<(E, u8, u8), E>,
    stamp: Vec<u32>,
    val: Vec<u64>,
    cur: u32,
    tt: FxHashMap<E, Rc<[u64; 4]>>,
    /// values over the joint range of several byte variables
    mtabs: FxHashMap<E, Rc<[u64]>>,
    /// truth over a given variable list, as bits
    bits: FxHashMap<(E, Rc<[u32]>), Rc<[u64]>>,
    mtab_words: usize,
    bit_words: usize,
    /// the only variable below, when it is a byte (0: none)
    pub svar: Vec<E>,
    /// values over the range of `svar`, computed on demand
    tabs: Vec<Option<Rc<[u64]>>>,
    /// depth-like size estimate (saturating tree size)
    pub weight: Vec<u32>,
    empty: Rc<[u32]>,
    sup_intern: FxHashMap<Rc<[u32]>, Rc<[u32]>>,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}
fn sx(v: u64, w: u8) -> i64 {
    ((v << (64 - w)) as i64) >> (64 - w)
}

fn f64v(w: u8, v: u64) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) }
}

pub fn eval_un(op: UO, w: u8, aw: u8, a: u64) -> u64 {
    use crate::ops::{U, un};
    let is32 = aw == 32;
    let r = match op {
        UO::Not => a ^ 1,
        UO::Clz => (a << (64 - aw)).leading_zeros().min(aw as u32) as u64,
        UO::Ctz => a.trailing_zeros().min(aw as u32) as u64,
        UO::Popcnt => a.count_ones() as u64,
        UO::FAbs => un(if is32 { U::FAbs32 } else { U::FAbs64 }, a),
        UO::FNeg => un(if is32 { U::FNeg32 } else { U::FNeg64 }, a),
        UO::FCeil => un(if is32 { U::FCeil32 } else { U::FCeil64 }, a),
        UO::FFloor => un(if is32 { U::FFloor32 } else { U::FFloor64 }, a),
        UO::FTrunc => un(if is32 { U::FTrunc32 } else { U::FTrunc64 }, a),
        UO::FNearest => un(if is32 { U::FNearest32 } else { U::FNearest64 }, a),
        UO::FSqrt => un(if is32 { U::FSqrt32 } else { U::FSqrt64 }, a),
        UO::ToS => {
            let f = f64v(aw, a);
            if w == 32 { f as i32 as u32 as u64 } else { f as i64 as u64 }
        }
        UO::ToU => {
            let f = f64v(aw, a);
            if w == 32 { f as u32 as u64 } else { f as u64 }
        }
        UO::FromS => {
            let i = sx(a, aw);
            if w == 32 { (i as f32).to_bits() as u64 } else { (i as f64).to_bits() }
        }
        UO::FromU => {
            if w == 32 {
                (a as f32).to_bits() as u64
            } else {
                (a as f64).to_bits()
            }
        }
        UO::Demote => un(U::Demote, a),
        UO::Promote => un(U::Promote, a),
        UO::Zext | UO::B2I => a,
        UO::Sext => sx(a, aw) as u64,
    };
    r & mask(w)
}

pub fn eval_bin(op: BO, w: u8, aw: u8, bw: u8, a: u64, b: u64) -> u64 {
    use crate::ops::{B, bin};
    let is32 = aw == 32;
    macro_rules! fl {
        ($x:ident, $y:ident) => {
            bin(if is32 { B::$x } else { B::$y }, a, b)
        };
    }
    let r = match op {
        BO::Add => a.wrapping_add(b),
        BO::Sub => a.wrapping_sub(b),
        BO::Mul => a.wrapping_mul(b),
        BO::UDiv => a.checked_div(b).unwrap_or(!0),
        BO::SDiv => {
            if b == 0 {
                if sx(a, aw) < 0 { 1 } else { !0 }
            } else {
                sx(a, aw).wrapping_div(sx(b, aw)) as u64
            }
        }
        BO::URem => a.checked_rem(b).unwrap_or(a),
        BO::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, aw).wrapping_rem(sx(b, aw)) as u64
            }
        }
        BO::And | BO::BAnd => a & b,
        BO::Or | BO::BOr => a | b,
        BO::Xor => a ^ b,
        BO::Shl => {
            if b >= aw as u64 { 0 } else { a << b }
        }
        BO::LShr => {
            if b >= aw as u64 { 0 } else { a >> b }
        }
        BO::AShr => (sx(a, aw) >> b.min(63)) as u64,
        BO::Rotl => {
            let k = b % aw as u64;
            if k == 0 { a } else { (a << k) | (a >> (aw as u64 - k)) }
        }
        BO::Rotr => {
            let k = b % aw as u64;
            if k == 0 { a } else { (a >> k) | (a << (aw as u64 - k)) }
        }
        BO::Eq => (a == b) as u64,
        BO::Ult => (a < b) as u64,
        BO::Ule => (a <= b) as u64,
        BO::Slt => (sx(a, aw) < sx(b, aw)) as u64,
        BO::Sle => (sx(a, aw) <= sx(b, aw)) as u64,
        BO::FEq => fl!(FEq32, FEq64),
        BO::FLt => fl!(FLt32, FLt64),
        BO::FLe => fl!(FLe32, FLe64),
        BO::FAdd => fl!(FAdd32, FAdd64),
        BO::FSub => fl!(FSub32, FSub64),
        BO::FMul => fl!(FMul32, FMul64),
        BO::FDiv => fl!(FDiv32, FDiv64),
        BO::FMin => fl!(FMin32, FMin64),
        BO::FMax => fl!(FMax32, FMax64),
        BO::FCopy => fl!(FCopy32, FCopy64),
        BO::Concat => (a << bw) | b,
    };
    r & mask(w)
}

impl Arena {
    pub fn new() -> Arena {
        let empty: Rc<[u32]> = Rc::from(vec![]);
        let mut a = Arena {
            nodes: vec![],
            w: vec![],
            sup: vec![],
            fp: vec![],
            ones: vec![],
            map: Default::default(),
            parts: Default::default(),
            stamp: vec![],
            val: vec![],
            cur: 0,
            tt: Default::default(),
            mtabs: Default::default(),
            bits: Default::default(),
            mtab_words: 0,
            bit_words: 0,
            svar: vec![],
            tabs: vec![],
            weight: vec![],
            empty,
            sup_intern: Default::default(),
        };
        a.mk(N::Const(0), 1); // handle 0 is reserved
        a.map.clear();
        a
    }

    fn union(&mut self, a: E, b: E) -> Rc<[u32]> {
        let (x, y) = (self.sup[a as usize].clone(), self.sup[b as usize].clone());
        if x.is_empty() || Rc::ptr_eq(&x, &y) {
            return y;
        }
        if y.is_empty() {
            return x;
        }
        let mut v: Vec<u32> = x.iter().chain(y.iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let r: Rc<[u32]> = Rc::from(v);
        self.sup_intern.entry(r.clone()).or_insert(r).clone()
    }

    pub fn mk(&mut self, n: N, w: u8) -> E {
        let key = (n, w);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let n = key.0.clone();
        let m = mask(w);
        let (sup, fp, ones) = match &n {
            N::Const(v) => (self.empty.clone(), false, *v),
            N::Var(i, lo, hi) => {
                let (lo, hi) = if w == 8 { (*lo as u32, *hi as u32) } else { (1, 0) };
                let r: Rc<[u32]> = Rc::from(vec![*i << 16 | lo << 8 | hi]);
                let r = self.sup_intern.entry(r.clone()).or_insert(r).clone();
                (r, false, m)
            }
            N::Un(op, a) => {
                let f = !matches!(
                    op,
                    UO::Not | UO::Clz | UO::Ctz | UO::Popcnt | UO::Zext | UO::Sext | UO::B2I
                );
                let ones = match op {
                    UO::Zext => self.ones[*a as usize],
                    UO::B2I | UO::Not => 1,
                    UO::Clz | UO::Ctz | UO::Popcnt => 127,
                    UO::Sext => {
                        let aw = self.w[*a as usize];
                        let o = self.ones[*a as usize];
                        if o >> (aw - 1) & 1 == 0 { o } else { m }
                    }
                    UO::FAbs => m >> 1,
                    _ => m,
                };
                (self.sup[*a as usize].clone(), f || self.fp[*a as usize], ones & m)
            }
            N::Bin(op, a, b) => {
                let f = matches!(
                    op,
                    BO::FEq
                        | BO::FLt
                        | BO::FLe
                        | BO::FAdd
                        | BO::FSub
                        | BO::FMul
                        | BO::FDiv
                        | BO::FMin
                        | BO::FMax
                        | BO::FCopy
                );
                let (oa, ob) = (self.ones[*a as usize], self.ones[*b as usize]);
                let bc = self.cst(*b);
                let ones = match op {
                    BO::And => oa & ob,
                    BO::Or | BO::Xor => oa | ob,
                    BO::Concat => (oa << self.w[*b as usize]) | ob,
                    BO::Add => {
                        let s = oa as u128 + ob as u128;
                        up(s)
                    }
                    BO::Mul => {
                        let s = oa as u128 * ob as u128;
                        up(s)
                    }
                    BO::Shl if bc.is_some() => {
                        let k = bc.unwrap();
                        if k >= w as u64 { 0 } else { oa << k }
                    }
                    BO::LShr if bc.is_some() => {
                        let k = bc.unwrap();
                        if k >= w as u64 { 0 } else { oa >> k }
                    }
                    BO::LShr | BO::UDiv => up(oa as u128),
                    BO::URem => up(oa as u128),
                    BO::Eq | BO::Ult | BO::Ule | BO::Slt | BO::Sle | BO::FEq | BO::FLt
                    | BO::FLe | BO::BAnd | BO::BOr => 1,
                    _ => m,
                };
                let f = f || self.fp[*a as usize] || self.fp[*b as usize];
                (self.union(*a, *b), f, ones & m)
            }
            N::Ite(c, a, b) => {
                let s1 = self.union(*a, *b);
                let sc = self.sup[*c as usize].clone();
                let s = if s1.is_empty() {
                    sc
                } else if sc.is_empty() || Rc::ptr_eq(&sc, &s1) {
                    s1
                } else {
                    let mut v: Vec<u32> = s1.iter().chain(sc.iter()).copied().collect();
                    v.sort_unstable();
                    v.dedup();
                    let r: Rc<[u32]> = Rc::from(v);
                    self.sup_intern.entry(r.clone()).or_insert(r).clone()
                };
                let f = self.fp[*a as usize] || self.fp[*b as usize] || self.fp[*c as usize];
                (s, f, self.ones[*a as usize] | self.ones[*b as usize])
            }
            N::Extract(a, lo) => {
                (self.sup[*a as usize].clone(), self.fp[*a as usize], self.ones[*a as usize] >> lo & m)
            }
            N::Lookup(a, t) => {
                let mut o = 0;
                for (_, v) in t.iter() {
                    o |= v;
                }
                (self.sup[*a as usize].clone(), self.fp[*a as usize], o & m)
            }
        };
        let e = self.nodes.len() as E;
        let sv = |x: E| self.svar[x as usize];
        let kc = |x: E| self.sup[x as usize].is_empty();
        let join = |x: E, y: E| {
            if kc(x) {
                sv(y)
            } else if kc(y) || sv(x) == sv(y) {
                sv(x)
            } else {
                0
            }
        };
        let svar = match &n {
            N::Const(_) => 0,
            N::Var(..) => {
                if w == 8 { e } else { 0 }
            }
            N::Un(_, a) | N::Extract(a, _) | N::Lookup(a, _) => sv(*a),
            N::Bin(_, a, b) => join(*a, *b),
            N::Ite(c, a, b) => {
                let ab = join(*a, *b);
                if kc(*a) && kc(*b) {
                    sv(*c)
                } else if ab == sv(*c) {
                    ab
                } else {
                    0
                }
            }
        };
        let wt = |x: E| self.weight[x as usize];
        let weight = match &n {
            N::Const(_) | N::Var(..) => 1,
            N::Un(_, a) | N::Extract(a, _) => wt(*a).saturating_add(1),
            N::Lookup(a, t) => wt(*a).saturating_add(t.len() as u32),
            N::Bin(o, a, b) => {
                let k = if matches!(o, BO::Mul | BO::UDiv | BO::SDiv | BO::URem | BO::SRem) {
                    16
                } else {
                    1
                };
                wt(*a).saturating_add(wt(*b)).saturating_add(k)
            }
            N::Ite(c, a, b) => {
                wt(*a).saturating_add(wt(*b)).saturating_add(wt(*c)).saturating_add(1)
            }
        };
        self.weight.push(weight);
        self.svar.push(svar);
        self.tabs.push(None);
        self.nodes.push(n);
        self.w.push(w);
        self.sup.push(sup);
        self.fp.push(fp);
        self.ones.push(ones);
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert(key, e);
        e
    }

    pub fn cst(&self, e: E) -> Option<u64> {
        match self.nodes[e as usize] {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn k(&mut self, v: u64, w: u8) -> E {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn width(&self, e: E) -> u8 {
        self.w[e as usize]
    }
    pub fn var(&mut self, id: u32, w: u8, lo: u64, hi: u64) -> E {
        let (lo, hi) = if w == 8 { (lo as u8, hi.min(255) as u8) } else { (0, 0) };
        self.mk(N::Var(id, lo, hi), w)
    }

    pub fn not(&mut self, a: E) -> E {
        match self.nodes[a as usize] {
            N::Const(v) => self.k(v ^ 1, 1),
            N::Un(UO::Not, x) => x,
            _ => self.mk(N::Un(UO::Not, a), 1),
        }
    }

    pub fn un(&mut self, op: UO, a: E, w: u8) -> E {
        let aw = self.w[a as usize];
        if let Some(v) = self.cst(a) {
            return self.k(eval_un(op, w, aw, v), w);
        }
        match op {
            UO::Not => return self.not(a),
            UO::Zext => {
                if aw == w {
                    return a;
                }
                match self.nodes[a as usize] {
                    N::Un(UO::Zext, x) => return self.un(UO::Zext, x, w),
                    N::Un(UO::B2I, x) => return self.un(UO::B2I, x, w),
                    _ => {}
                }
            }
            UO::Sext => {
                if aw == w {
                    return a;
                }
                if self.ones[a as usize] >> (aw - 1) & 1 == 0 {
                    return self.un(UO::Zext, a, w);
                }
            }
            UO::FNeg => {
                if let N::Un(UO::FNeg, x) = self.nodes[a as usize] {
                    return x;
                }
            }
            UO::FAbs => {
                if let N::Un(UO::FNeg | UO::FAbs, x) = self.nodes[a as usize] {
                    return self.un(UO::FAbs, x, w);
                }
            }
            _ => {}
        }
        self.mk(N::Un(op, a), w)
    }

    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w[a as usize];
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.cst(a) {
            return self.k(v >> lo, w);
        }
        if self.ones[a as usize] >> lo & mask(w) == 0 {
            return self.k(0, w);
        }
        let key = (a, lo, w);
        if let Some(r) = self.parts.get(&key) {
            return *r;
        }
        let r = self.extract_new(a, lo, w);
        self.parts.insert(key, r);
        r
    }

    fn extract_new(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w[a as usize];
        match self.nodes[a as usize].clone() {
            N::Un(UO::Zext, x) => {
                let xw = self.w[x as usize];
                if lo >= xw {
                    return self.k(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let inner = self.extract(x, lo, xw - lo);
                return self.un(UO::Zext, inner, w);
            }
            N::Un(UO::Sext, x) => {
                let xw = self.w[x as usize];
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
            }
            N::Un(UO::B2I, x) if lo == 0 && w == 1 => return x,
            N::Un(UO::B2I, x) if lo == 0 => return self.un(UO::B2I, x, w),
            N::Bin(BO::Concat, h, l) => {
                let lw = self.w[l as usize];
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
            }
            N::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            N::Bin(op @ (BO::And | BO::Or | BO::Xor), x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                return self.bin(op, x, y);
            }
            N::Bin(op @ (BO::Add | BO::Sub | BO::Mul), x, y) if lo == 0 => {
                let (x, y) = (self.extract(x, 0, w), self.extract(y, 0, w));
                return self.bin(op, x, y);
            }
            N::Bin(BO::LShr, x, y) => {
                if let Some(k) = self.cst(y)
                    && k as u8 as u64 == k
                    && lo as u64 + k + w as u64 <= aw as u64
                {
                    return self.extract(x, lo + k as u8, w);
                }
            }
            N::Bin(BO::Shl, x, y) => {
                if let Some(k) = self.cst(y)
                    && lo as u64 >= k
                {
                    return self.extract(x, lo - k as u8, w);
                }
            }
            N::Ite(c, x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.mk(N::Extract(a, lo), w)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cst(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Un(UO::Not, x) = self.nodes[c as usize] {
            return self.ite(x, b, a);
        }
        let w = self.w[a as usize];
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BO::BOr, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(BO::BAnd, n, b);
                }
                (None, Some(0)) => return self.bin(BO::BAnd, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(BO::BOr, n, a);
                }
                _ => {}
            }
        }
        if let (Some(1), Some(0)) = (self.cst(a), self.cst(b)) {
            return self.un(UO::B2I, c, w);
        }
        if let (Some(0), Some(1)) = (self.cst(a), self.cst(b)) {
            let n = self.not(c);
            return self.un(UO::B2I, n, w);
        }
        self.mk(N::Ite(c, a, b), w)
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w[h as usize], self.w[l as usize]);
        let w = hw + lw;
        match (self.cst(h), self.cst(l)) {
            (Some(x), Some(y)) => return self.k((x << lw) | y, w),
            (Some(0), None) => return self.un(UO::Zext, l, w),
            _ => {}
        }
        if let (N::Extract(x, a), N::Extract(y, b)) =
            (&self.nodes[h as usize], &self.nodes[l as usize])
            && x == y
            && *a == *b + lw
        {
            let (x, b) = (*x, *b);
            return self.extract(x, b, w);
        }
        // sign/zero extension split into bytes
        self.mk(N::Bin(BO::Concat, h, l), w)
    }

    pub fn bin(&mut self, op: BO, a: E, b: E) -> E {
        use BO::*;
        let (aw, bw) = (self.w[a as usize], self.w[b as usize]);
        let w = match op {
            Eq | Ult | Ule | Slt | Sle | FEq | FLt | FLe | BAnd | BOr => 1,
            Concat => return self.concat(a, b),
            _ => aw,
        };
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k(eval_bin(op, w, aw, bw, x, y), w);
        }
        // constants to the right
        if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq | BAnd | BOr) {
            return self.bin(op, b, a);
        }
        let m = mask(aw);
        let (oa, ob) = (self.ones[a as usize], self.ones[b as usize]);
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(c2), N::Bin(Add, x, y)) = (cb, &self.nodes[a as usize]) {
                    let (x, y) = (*x, *y);
                    if let Some(c1) = self.cst(y) {
                        let k = self.k(c1.wrapping_add(c2), aw);
                        return self.bin(Add, x, k);
                    }
                }
            }
            Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.k(0, aw);
                }
                if let Some(c) = cb {
                    let k = self.k(c.wrapping_neg(), aw);
                    return self.bin(Add, a, k);
                }
            }
            Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(c) = cb
                    && c.is_power_of_two()
                {
                    let k = self.k(c.trailing_zeros() as u64, aw);
                    return self.bin(Shl, a, k);
                }
            }
            And => {
                if oa & ob == 0 {
                    return self.k(0, aw);
                }
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if oa & !c == 0 {
                        return a;
                    }
                    if let N::Bin(And, x, y) = self.nodes[a as usize]
                        && let Some(c1) = self.cst(y)
                    {
                        let k = self.k(c & c1, aw);
                        return self.bin(And, x, k);
                    }
                    if let N::Un(UO::Zext, x) = self.nodes[a as usize] {
                        let xw = self.w[x as usize];
                        let k = self.k(c, xw);
                        let r = self.bin(And, x, k);
                        return self.un(UO::Zext, r, aw);
                    }
                    // low mask
                    if c == mask(8) && aw > 8 || c == mask(16) && aw > 16 || c == mask(32) && aw > 32
                    {
                        let nw = c.count_ones() as u8;
                        let x = self.extract(a, 0, nw);
                        return self.un(UO::Zext, x, aw);
                    }
                }
                if let (N::Un(UO::B2I, x), N::Un(UO::B2I, y)) =
                    (&self.nodes[a as usize], &self.nodes[b as usize])
                {
                    let (x, y) = (*x, *y);
                    let r = self.bin(BAnd, x, y);
                    return self.un(UO::B2I, r, aw);
                }
            }
            Or => {
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if a == b {
                    return a;
                }
                if let (N::Un(UO::B2I, x), N::Un(UO::B2I, y)) =
                    (&self.nodes[a as usize], &self.nodes[b as usize])
                {
                    let (x, y) = (*x, *y);
                    let r = self.bin(BOr, x, y);
                    return self.un(UO::B2I, r, aw);
                }
            }
            Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.k(0, aw);
                }
                if let (Some(1), N::Un(UO::B2I, x)) = (cb, &self.nodes[a as usize]) {
                    let x = *x;
                    let r = self.not(x);
                    return self.un(UO::B2I, r, aw);
                }
            }
            Shl | LShr | AShr | Rotl | Rotr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if op == Shl && (k >= aw as u64 || (oa << k) & m == 0) {
                        return self.k(0, aw);
                    }
                    if op == LShr && (k >= aw as u64 || oa >> k == 0) {
                        return self.k(0, aw);
                    }
                    if op == AShr && oa >> (aw - 1) & 1 == 0 {
                        return self.bin(LShr, a, b);
                    }
                    if let N::Bin(o2, x, y) = self.nodes[a as usize]
                        && o2 == op
                        && matches!(op, Shl | LShr)
                        && let Some(k1) = self.cst(y)
                        && k + k1 < aw as u64
                    {
                        let kk = self.k(k + k1, aw);
                        return self.bin(op, x, kk);
                    }
                }
            }
            Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if let Some(c) = cb {
                    if c & !oa != 0 {
                        return self.k(0, 1);
                    }
                    match self.nodes[a as usize].clone() {
                        N::Un(UO::B2I, x) => {
                            return match c {
                                0 => self.not(x),
                                1 => x,
                                _ => self.k(0, 1),
                            };
                        }
                        N::Un(UO::Zext, x) => {
                            let xw = self.w[x as usize];
                            let k = self.k(c, xw);
                            return self.bin(Eq, x, k);
                        }
                        N::Bin(Add, x, y) => {
                            if let Some(c1) = self.cst(y) {
                                let k = self.k(c.wrapping_sub(c1), aw);
                                return self.bin(Eq, x, k);
                            }
                        }
                        N::Bin(Xor, x, y) => {
                            if let Some(c1) = self.cst(y) {
                                let k = self.k(c ^ c1, aw);
                                return self.bin(Eq, x, k);
                            }
                            if c == 0 {
                                return self.bin(Eq, x, y);
                            }
                        }
                        N::Bin(Or, x, y) if c == 0 => {
                            let z = self.k(0, aw);
                            let p = self.bin(Eq, x, z);
                            let q = self.bin(Eq, y, z);
                            return self.bin(BAnd, p, q);
                        }
                        N::Bin(Concat, h, l) => {
                            let lw = self.w[l as usize];
                            let kh = self.k(c >> lw, aw - lw);
                            let kl = self.k(c, lw);
                            let p = self.bin(Eq, h, kh);
                            let q = self.bin(Eq, l, kl);
                            return self.bin(BAnd, p, q);
                        }
                        N::Ite(cc, x, y) => {
                            let (cx, cy) = (self.cst(x), self.cst(y));
                            if cx.is_some() || cy.is_some() {
                                let p = self.bin(Eq, x, b);
                                let q = self.bin(Eq, y, b);
                                return self.ite(cc, p, q);
                            }
                        }
                        _ => {}
                    }
                    if aw == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                } else {
                    match (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
                        (N::Un(UO::Zext, x), N::Un(UO::Zext, y))
                            if self.w[x as usize] == self.w[y as usize] =>
                        {
                            return self.bin(Eq, x, y);
                        }
                        (N::Bin(Concat, h1, l1), N::Bin(Concat, h2, l2))
                            if self.w[l1 as usize] == self.w[l2 as usize] =>
                        {
                            let p = self.bin(Eq, h1, h2);
                            let q = self.bin(Eq, l1, l2);
                            return self.bin(BAnd, p, q);
                        }
                        _ => {}
                    }
                    if b < a {
                        return self.mk(N::Bin(Eq, b, a), 1);
                    }
                }
            }
            Ult => {
                if a == b || cb == Some(0) {
                    return self.k(0, 1);
                }
                if let Some(c) = cb {
                    if up(oa as u128) < c {
                        return self.k(1, 1);
                    }
                    if let N::Un(UO::Zext, x) = self.nodes[a as usize] {
                        let xw = self.w[x as usize];
                        if c <= mask(xw) {
                            let k = self.k(c, xw);
                            return self.bin(Ult, x, k);
                        }
                        return self.k(1, 1);
                    }
                }
                if let Some(c) = ca
                    && c >= up(ob as u128)
                {
                    return self.k(0, 1);
                }
            }
            Ule => {
                if a == b || ca == Some(0) {
                    return self.k(1, 1);
                }
                // a <= b  <=>  !(b < a)
                let r = self.bin(Ult, b, a);
                return self.not(r);
            }
            Slt | Sle => {
                if a == b {
                    return self.k((op == Sle) as u64, 1);
                }
                let hi = 1u64 << (aw - 1);
                if oa & hi == 0 && ob & hi == 0 {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
                if op == Sle {
                    let r = self.bin(Slt, b, a);
                    return self.not(r);
                }
            }
            BAnd => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) || a == b {
                    return a;
                }
                if self.not(a) == b {
                    return self.k(0, 1);
                }
            }
            BOr => {
                if cb == Some(1) {
                    return b;
                }
                if cb == Some(0) || a == b {
                    return a;
                }
                if self.not(a) == b {
                    return self.k(1, 1);
                }
            }
            _ => {}
        }
        self.mk(N::Bin(op, a, b), w)
    }

    pub fn lookup(&mut self, idx: E, table: Vec<(u64, u64)>, w: u8) -> E {
        if table.iter().all(|t| t.1 == table[0].1) {
            return self.k(table[0].1, w);
        }
        self.mk(N::Lookup(idx, Rc::from(table)), w)
    }

    /// Evaluates under a total assignment of variables.
    pub fn begin_eval(&mut self) {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            self.stamp.fill(0);
            self.cur = 1;
        }
    }
    pub fn eval(&mut self, e: E, env: &dyn Fn(u32) -> u64) -> u64 {
        self.begin_eval();
        self.eval_go(e, env)
    }
    pub fn eval_go(&mut self, e: E, env: &dyn Fn(u32) -> u64) -> u64 {
        let i = e as usize;
        if self.stamp[i] == self.cur {
            return self.val[i];
        }
        let w = self.w[i];
        let sv = self.svar[i];
        if sv != 0 && sv != e {
            let N::Var(id, lo, hi) = self.nodes[sv as usize] else { unreachable!() };
            let x = env(id) & 0xff;
            if x >= lo as u64 && x <= hi as u64 {
                return self.tab(e)[(x - lo as u64) as usize];
            }
        }
        if sv == 0 && self.mtabs.contains_key(&e) {
            let sup = self.sup[i].clone();
            let mut k = 0usize;
            let mut inside = true;
            for p in sup.iter() {
                let (lo, hi) = ((p >> 8 & 255) as u64, (p & 255) as u64);
                let x = env(p >> 16) & 0xff;
                inside &= x >= lo && x <= hi;
                k = k * (hi - lo + 1) as usize + (x.wrapping_sub(lo) & 0xff) as usize;
            }
            if inside {
                return self.mtabs[&e][k];
            }
        }
        let v = match &self.nodes[i] {
            N::Const(v) => *v,
            N::Var(id, _, _) => env(*id) & mask(w),
            N::Un(op, a) => {
                let (op, a) = (*op, *a);
                let x = self.eval_go(a, env);
                eval_un(op, w, self.w[a as usize], x)
            }
            N::Bin(op, a, b) => {
                let (op, a, b) = (*op, *a, *b);
                let x = self.eval_go(a, env);
                let y = self.eval_go(b, env);
                eval_bin(op, w, self.w[a as usize], self.w[b as usize], x, y)
            }
            N::Ite(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                if self.eval_go(c, env) != 0 {
                    self.eval_go(a, env)
                } else {
                    self.eval_go(b, env)
                }
            }
            N::Extract(a, lo) => {
                let (a, lo) = (*a, *lo);
                self.eval_go(a, env) >> lo & mask(w)
            }
            N::Lookup(a, t) => {
                let (a, t) = (*a, t.clone());
                let x = self.eval_go(a, env);
                match t.binary_search_by_key(&x, |p| p.0) {
                    Ok(i) => t[i].1,
                    Err(_) => 0,
                }
            }
        };
        self.stamp[i] = self.cur;
        self.val[i] = v;
        v
    }

    /// Values of an expression over its only variable's range.
    pub fn tab(&mut self, e: E) -> Rc<[u64]> {
        let i = e as usize;
        if let Some(t) = &self.tabs[i] {
            return t.clone();
        }
        let w = self.w[i];
        let N::Var(_, lo, hi) = self.nodes[self.svar[i] as usize] else { unreachable!() };
        let n = (hi - lo) as usize + 1;
        // operands: a table or a constant
        enum T {
            C(u64),
            T(Rc<[u64]>),
        }
        impl T {
            fn at(&self, k: usize) -> u64 {
                match self {
                    T::C(v) => *v,
                    T::T(t) => t[k],
                }
            }
        }
        let mut op = |s: &mut Self, x: E| match s.cst(x) {
            Some(v) => T::C(v),
            None => T::T(s.tab(x)),
        };
        let r: Vec<u64> = match self.nodes[i].clone() {
            N::Const(v) => vec![v; n],
            N::Var(..) => (lo as u64..=hi as u64).collect(),
            N::Un(o, a) => {
                let t = op(self, a);
                let aw = self.w[a as usize];
                (0..n).map(|k| eval_un(o, w, aw, t.at(k))).collect()
            }
            N::Bin(o, a, b) => {
                let (x, y) = (op(self, a), op(self, b));
                let (aw, bw) = (self.w[a as usize], self.w[b as usize]);
                (0..n).map(|k| eval_bin(o, w, aw, bw, x.at(k), y.at(k))).collect()
            }
            N::Ite(c, a, b) => {
                let (c, x, y) = (op(self, c), op(self, a), op(self, b));
                (0..n).map(|k| if c.at(k) != 0 { x.at(k) } else { y.at(k) }).collect()
            }
            N::Extract(a, l) => {
                let t = op(self, a);
                (0..n).map(|k| t.at(k) >> l & mask(w)).collect()
            }
            N::Lookup(a, tb) => {
                let t = op(self, a);
                (0..n)
                    .map(|k| match tb.binary_search_by_key(&t.at(k), |p| p.0) {
                        Ok(i) => tb[i].1,
                        Err(_) => 0,
                    })
                    .collect()
            }
        };
        let r: Rc<[u64]> = Rc::from(r);
        self.tabs[i] = Some(r.clone());
        r
    }

    /// Number of value combinations of a variable list (saturating; huge for wide variables).
    pub fn joint(sup: &[u32]) -> usize {
        let mut p = 1usize;
        for v in sup {
            let (lo, hi) = (v >> 8 & 255, v & 255);
            if hi < lo {
                return usize::MAX;
            }
            p = p.saturating_mul((hi - lo + 1) as usize);
        }
        p
    }

    /// For each joint value of `outer`, the index of the joint value of `inner` (a sublist).
    fn project(outer: &[u32], inner: &[u32]) -> Vec<u32> {
        let mut idx = vec![0u32];
        // last variable varies fastest
        let mut strides = vec![0u32; inner.len()];
        let mut s = 1u32;
        for (k, v) in inner.iter().enumerate().rev() {
            strides[k] = s;
            s *= (v & 255) - (v >> 8 & 255) + 1;
        }
        for v in outer {
            let n = (v & 255) - (v >> 8 & 255) + 1;
            let st = inner.iter().position(|x| x == v).map_or(0, |k| strides[k]);
            let mut next = Vec::with_capacity(idx.len() * n as usize);
            for i in &idx {
                for d in 0..n {
                    next.push(i + d * st);
                }
            }
            idx = next;
        }
        idx
    }

    /// Values of an expression over the joint range of its variables (last varies fastest).
    pub fn mtab(&mut self, e: E) -> Rc<[u64]> {
        if self.svar[e as usize] != 0 {
            return self.tab(e);
        }
        if let Some(t) = self.mtabs.get(&e) {
            return t.clone();
        }
        let i = e as usize;
        let w = self.w[i];
        let sup = self.sup[i].clone();
        let n = Self::joint(&sup);
        let kids: Vec<E> = match &self.nodes[i] {
            N::Const(_) | N::Var(..) => vec![],
            N::Un(_, a) | N::Extract(a, _) | N::Lookup(a, _) => vec![*a],
            N::Bin(_, a, b) => vec![*a, *b],
            N::Ite(c, a, b) => vec![*c, *a, *b],
        };
        let mut cols: Vec<Vec<u64>> = vec![];
        for k in &kids {
            cols.push(match self.cst(*k) {
                Some(v) => vec![v; n],
                None => {
                    let t = self.mtab(*k);
                    let ks = self.sup[*k as usize].clone();
                    if Rc::ptr_eq(&ks, &sup) || ks == sup {
                        t.to_vec()
                    } else {
                        Self::project(&sup, &ks).iter().map(|j| t[*j as usize]).collect()
                    }
                }
            });
        }
        let r: Vec<u64> = match self.nodes[i].clone() {
            N::Const(v) => vec![v; n],
            N::Var(..) => unreachable!(),
            N::Un(o, a) => {
                let aw = self.w[a as usize];
                cols[0].iter().map(|x| eval_un(o, w, aw, *x)).collect()
            }
            N::Bin(o, a, b) => {
                let (aw, bw) = (self.w[a as usize], self.w[b as usize]);
                cols[0].iter().zip(&cols[1]).map(|(x, y)| eval_bin(o, w, aw, bw, *x, *y)).collect()
            }
            N::Ite(..) => {
                (0..n).map(|k| if cols[0][k] != 0 { cols[1][k] } else { cols[2][k] }).collect()
            }
            N::Extract(_, l) => cols[0].iter().map(|x| x >> l & mask(w)).collect(),
            N::Lookup(_, tb) => cols[0]
                .iter()
                .map(|x| match tb.binary_search_by_key(x, |p| p.0) {
                    Ok(i) => tb[i].1,
                    Err(_) => 0,
                })
                .collect(),
        };
        let r: Rc<[u64]> = Rc::from(r);
        if self.mtabs.len() > 60_000 || self.mtab_words > 10_000_000 {
            self.mtabs.clear();
            self.mtab_words = 0;
        }
        self.mtab_words += n;
        self.mtabs.insert(e, r.clone());
        r
    }

    /// Truth of a condition over the joint range of `vars`, one bit per combination.
    pub fn truth_bits(&mut self, e: E, vars: &Rc<[u32]>) -> Rc<[u64]> {
        if let Some(t) = self.bits.get(&(e, vars.clone())) {
            return t.clone();
        }
        let t = self.mtab(e);
        let ks = self.sup[e as usize].clone();
        let n = Self::joint(vars);
        let mut out = vec![0u64; n.div_ceil(64)];
        if ks == *vars {
            for (k, v) in t.iter().enumerate() {
                out[k >> 6] |= (*v & 1) << (k & 63);
            }
        } else {
            for (k, j) in Self::project(vars, &ks).iter().enumerate() {
                out[k >> 6] |= (t[*j as usize] & 1) << (k & 63);
            }
        }
        let r: Rc<[u64]> = Rc::from(out);
        if self.bits.len() > 200_000 || self.bit_words > 10_000_000 {
            self.bits.clear();
            self.bit_words = 0;
        }
        self.bit_words += r.len();
        self.bits.insert((e, vars.clone()), r.clone());
        r
    }

    /// Truth table of a boolean with a single 8-bit variable.
    pub fn truth(&mut self, e: E) -> Rc<[u64; 4]> {
        if let Some(t) = self.tt.get(&e) {
            return t.clone();
        }
        let mut t = [0u64; 4];
        let N::Var(_, lo, _) = self.nodes[self.svar[e as usize] as usize] else { unreachable!() };
        let tab = self.tab(e);
        for (k, v) in tab.iter().enumerate() {
            if *v != 0 {
                let x = lo as usize + k;
                t[x >> 6] |= 1 << (x & 63);
            }
        }
        let t = Rc::new(t);
        self.tt.insert(e, t.clone());
        t
    }
}

fn up(v: u128) -> u64 {
    if v == 0 {
        return 0;
    }
    let b = 128 - v.leading_zeros();
    if b >= 64 { !0 } else { (1u64 << b) - 1 }
}
