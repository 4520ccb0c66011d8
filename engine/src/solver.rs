//! Translation of expressions to Z3 and satisfiability queries.
use crate::expr::{Arena, BO, E, N, UO, mask};
use crate::z3::*;
use std::time::Instant;

pub struct Z3 {
    c: Ctx,
    bv: [Vec<Ast>; 2],
    fp: [Vec<Ast>; 2],
    /// replace expressions over one byte by their value tables
    mode: usize,
    timeout: u32,
    plain: Solver,
    float: Solver,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown(String),
}

impl Z3 {
    /// Forgets all expressions, keeps the statistics.
    pub fn renew(&mut self) {
        let mut n = Z3::new(self.timeout);
        n.queries = self.queries;
        n.sat = self.sat;
        n.unsat = self.unsat;
        n.unknown = self.unknown;
        n.time = self.time;
        n.max_time = self.max_time;
        *self = n;
    }

    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let plain = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, plain);
            let name = std::ffi::CString::new("QF_FPBV").unwrap();
            let float = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, name.as_ptr()));
            Z3_solver_inc_ref(c, float);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = std::ffi::CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, plain, p);
            Z3_solver_set_params(c, float, p);
            Z3 {
                c,
                bv: [vec![], vec![]],
                fp: [vec![], vec![]],
                mode: 0,
                timeout: timeout_ms,
                plain,
                float,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
            }
        }
    }

    fn keep(&mut self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }

    fn fsort(&self, w: u8) -> Sort {
        unsafe { if w == 32 { Z3_mk_fpa_sort(self.c, 8, 24) } else { Z3_mk_fpa_sort(self.c, 11, 53) } }
    }

    /// floating point view of a 32/64 bit node
    fn fpv(&mut self, a: &mut Arena, e: E) -> Ast {
        let i = e as usize;
        if self.fp[self.mode].len() <= i {
            self.fp[self.mode].resize(a.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.fp[self.mode][i].is_null() {
            return self.fp[self.mode][i];
        }
        let c = self.c;
        let w = a.w[i];
        let r = unsafe {
            let rne = Z3_mk_fpa_rne(c);
            match &a.nodes[i].clone() {
                N::Un(op, x) => {
                    let x = *x;
                    match op {
                        UO::FAbs => Z3_mk_fpa_abs(c, self.fpv(a, x)),
                        UO::FNeg => Z3_mk_fpa_neg(c, self.fpv(a, x)),
                        UO::FSqrt => Z3_mk_fpa_sqrt(c, rne, self.fpv(a, x)),
                        UO::FCeil => {
                            Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), self.fpv(a, x))
                        }
                        UO::FFloor => {
                            Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), self.fpv(a, x))
                        }
                        UO::FTrunc => {
                            Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), self.fpv(a, x))
                        }
                        UO::FNearest => Z3_mk_fpa_round_to_integral(c, rne, self.fpv(a, x)),
                        UO::FromS => Z3_mk_fpa_to_fp_signed(c, rne, self.bvv(a, x), self.fsort(w)),
                        UO::FromU => {
                            Z3_mk_fpa_to_fp_unsigned(c, rne, self.bvv(a, x), self.fsort(w))
                        }
                        UO::Demote | UO::Promote => {
                            Z3_mk_fpa_to_fp_float(c, rne, self.fpv(a, x), self.fsort(w))
                        }
                        _ => Z3_mk_fpa_to_fp_bv(c, self.bvv(a, e), self.fsort(w)),
                    }
                }
                N::Bin(op, x, y) => {
                    let (x, y) = (*x, *y);
                    match op {
                        BO::FAdd => Z3_mk_fpa_add(c, rne, self.fpv(a, x), self.fpv(a, y)),
                        BO::FSub => Z3_mk_fpa_sub(c, rne, self.fpv(a, x), self.fpv(a, y)),
                        BO::FMul => Z3_mk_fpa_mul(c, rne, self.fpv(a, x), self.fpv(a, y)),
                        BO::FDiv => Z3_mk_fpa_div(c, rne, self.fpv(a, x), self.fpv(a, y)),
                        BO::FMin | BO::FMax => {
                            let (p, q) = (self.fpv(a, x), self.fpv(a, y));
                            let nan = Z3_mk_fpa_nan(c, self.fsort(w));
                            let anynan = [Z3_mk_fpa_is_nan(c, p), Z3_mk_fpa_is_nan(c, q)];
                            let anynan = Z3_mk_or(c, 2, anynan.as_ptr());
                            let zz = [Z3_mk_fpa_is_zero(c, p), Z3_mk_fpa_is_zero(c, q)];
                            let zz = Z3_mk_and(c, 2, zz.as_ptr());
                            let pneg = Z3_mk_fpa_is_negative(c, p);
                            let (onzero, lt) = if *op == BO::FMin {
                                (Z3_mk_ite(c, pneg, p, q), Z3_mk_fpa_lt(c, p, q))
                            } else {
                                (Z3_mk_ite(c, pneg, q, p), Z3_mk_fpa_lt(c, q, p))
                            };
                            let sel = Z3_mk_ite(c, lt, p, q);
                            let r = Z3_mk_ite(c, zz, onzero, sel);
                            Z3_mk_ite(c, anynan, nan, r)
                        }
                        _ => Z3_mk_fpa_to_fp_bv(c, self.bvv(a, e), self.fsort(w)),
                    }
                }
                N::Ite(k, x, y) if a.fp[*x as usize] || a.fp[*y as usize] => {
                    let (k, x, y) = (*k, *x, *y);
                    Z3_mk_ite(c, self.bvv(a, k), self.fpv(a, x), self.fpv(a, y))
                }
                _ => Z3_mk_fpa_to_fp_bv(c, self.bvv(a, e), self.fsort(w)),
            }
        };
        let r = self.keep(r);
        self.fp[self.mode][i] = r;
        r
    }

    /// bit vector (or boolean for width 1) view
    pub fn bvv(&mut self, a: &mut Arena, e: E) -> Ast {
        let i = e as usize;
        if self.bv[self.mode].len() <= i {
            self.bv[self.mode].resize(a.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bv[self.mode][i].is_null() {
            return self.bv[self.mode][i];
        }
        let c = self.c;
        let w = a.w[i];
        let sv = a.svar[i];
        if self.mode == 1 && sv != 0 && sv != e && (a.fp[i] || a.weight[i] > 12) {
            let r = self.table(a, e, sv);
            let r = self.keep(r);
            self.bv[1][i] = r;
            return r;
        }
        let r = unsafe {
            match &a.nodes[i].clone() {
                N::Const(v) => {
                    if w == 1 {
                        if *v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    } else {
                        Z3_mk_unsigned_int64(c, *v, Z3_mk_bv_sort(c, w as u32))
                    }
                }
                N::Var(id, _, _) => {
                    let s = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as u32) };
                    Z3_mk_const(c, Z3_mk_int_symbol(c, (*id as i32) * 128 + w as i32), s)
                }
                N::Un(op, x) => {
                    let x = *x;
                    let xw = a.w[x as usize];
                    match op {
                        UO::Not => Z3_mk_not(c, self.bvv(a, x)),
                        UO::Zext => Z3_mk_zero_ext(c, (w - xw) as u32, self.bits(a, x)),
                        UO::Sext => Z3_mk_sign_ext(c, (w - xw) as u32, self.bits(a, x)),
                        UO::B2I if w == 1 => self.bvv(a, x),
                        UO::B2I => {
                            let s = Z3_mk_bv_sort(c, w as u32);
                            let one = Z3_mk_unsigned_int64(c, 1, s);
                            let zero = Z3_mk_unsigned_int64(c, 0, s);
                            Z3_mk_ite(c, self.bvv(a, x), one, zero)
                        }
                        UO::Clz | UO::Ctz | UO::Popcnt => {
                            let s = Z3_mk_bv_sort(c, w as u32);
                            let v = self.bvv(a, x);
                            let zero = Z3_mk_unsigned_int64(c, 0, s);
                            let one = Z3_mk_unsigned_int64(c, 1, s);
                            let b1 = Z3_mk_bv_sort(c, 1);
                            let b1one = Z3_mk_unsigned_int64(c, 1, b1);
                            if *op == UO::Popcnt {
                                let mut r = zero;
                                for k in 0..w {
                                    let bit = Z3_mk_extract(c, k as u32, k as u32, v);
                                    let bit = Z3_mk_zero_ext(c, w as u32 - 1, bit);
                                    r = Z3_mk_bvadd(c, r, bit);
                                }
                                let _ = one;
                                r
                            } else {
                                let mut r = Z3_mk_unsigned_int64(c, w as u64, s);
                                for j in 0..w {
                                    // scan from the least significant decision outwards
                                    let k = if *op == UO::Clz { j } else { w - 1 - j };
                                    let bit = Z3_mk_extract(c, k as u32, k as u32, v);
                                    let cnt = if *op == UO::Clz { w - 1 - k } else { k };
                                    let cnt = Z3_mk_unsigned_int64(c, cnt as u64, s);
                                    r = Z3_mk_ite(c, Z3_mk_eq(c, bit, b1one), cnt, r);
                                }
                                r
                            }
                        }
                        UO::ToS | UO::ToU => {
                            // saturating conversion
                            let f = self.fpv(a, x);
                            let fs = self.fsort(xw);
                            let s = Z3_mk_bv_sort(c, w as u32);
                            let signed = *op == UO::ToS;
                            let (lo, hi): (f64, f64) = match (signed, w) {
                                (true, 32) => (-2147483648.0, 2147483648.0),
                                (true, _) => (-9223372036854775808.0, 9223372036854775808.0),
                                (false, 32) => (0.0, 4294967296.0),
                                (false, _) => (0.0, 18446744073709551616.0),
                            };
                            let (lov, hiv) = match (signed, w) {
                                (true, 32) => (0x8000_0000u64, 0x7fff_ffff),
                                (true, _) => (1 << 63, (1 << 63) - 1),
                                (false, 32) => (0, 0xffff_ffff),
                                (false, _) => (0, !0),
                            };
                            let cf = |v: f64| {
                                let bits =
                                    if xw == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                                let b = Z3_mk_unsigned_int64(c, bits, Z3_mk_bv_sort(c, xw as u32));
                                Z3_mk_fpa_to_fp_bv(c, b, fs)
                            };
                            let t =
                                Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), f);
                            let conv = if signed {
                                Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w as u32)
                            } else {
                                Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, w as u32)
                            };
                            let ge = Z3_mk_fpa_leq(c, cf(hi), t);
                            let le = Z3_mk_fpa_lt(c, t, cf(lo));
                            let r = Z3_mk_ite(c, ge, Z3_mk_unsigned_int64(c, hiv, s), conv);
                            let r = Z3_mk_ite(c, le, Z3_mk_unsigned_int64(c, lov, s), r);
                            let nan = Z3_mk_fpa_is_nan(c, f);
                            Z3_mk_ite(c, nan, Z3_mk_unsigned_int64(c, 0, s), r)
                        }
                        _ => {
                            let f = self.fpv(a, e);
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                    }
                }
                N::Bin(op, x, y) => {
                    let (x, y) = (*x, *y);
                    use BO::*;
                    match op {
                        FEq => Z3_mk_fpa_eq(c, self.fpv(a, x), self.fpv(a, y)),
                        FLt => Z3_mk_fpa_lt(c, self.fpv(a, x), self.fpv(a, y)),
                        FLe => Z3_mk_fpa_leq(c, self.fpv(a, x), self.fpv(a, y)),
                        FAdd | FSub | FMul | FDiv | FMin | FMax => {
                            let f = self.fpv(a, e);
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        FCopy => {
                            let (p, q) = (self.bvv(a, x), self.bvv(a, y));
                            let s = Z3_mk_bv_sort(c, w as u32);
                            let sign = Z3_mk_unsigned_int64(c, 1 << (w - 1), s);
                            let rest = Z3_mk_unsigned_int64(c, mask(w) >> 1, s);
                            Z3_mk_bvor(c, Z3_mk_bvand(c, p, rest), Z3_mk_bvand(c, q, sign))
                        }
                        Concat => {
                            let (p, q) = (self.bits(a, x), self.bits(a, y));
                            Z3_mk_concat(c, p, q)
                        }
                        Add | Sub | Mul | UDiv | SDiv | URem | SRem | And | Or | Xor | Shl | LShr
                        | AShr | Rotl | Rotr | Ult | Ule | Slt | Sle
                            if a.w[x as usize] == 1 =>
                        {
                            // arithmetic on single bits goes by cases
                            let (p, q) = (self.bvv(a, x), self.bvv(a, y));
                            let k = |v: u64| if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) };
                            let f = |s: u64, t: u64| k(crate::expr::eval_bin(*op, 1, 1, 1, s, t));
                            let one = Z3_mk_ite(c, q, f(1, 1), f(1, 0));
                            let zero = Z3_mk_ite(c, q, f(0, 1), f(0, 0));
                            Z3_mk_ite(c, p, one, zero)
                        }
                        _ => {
                            let (p, q) = (self.bvv(a, x), self.bvv(a, y));
                            match op {
                                Add => Z3_mk_bvadd(c, p, q),
                                Sub => Z3_mk_bvsub(c, p, q),
                                Mul => Z3_mk_bvmul(c, p, q),
                                UDiv => Z3_mk_bvudiv(c, p, q),
                                SDiv => Z3_mk_bvsdiv(c, p, q),
                                URem => Z3_mk_bvurem(c, p, q),
                                SRem => Z3_mk_bvsrem(c, p, q),
                                And => Z3_mk_bvand(c, p, q),
                                Or => Z3_mk_bvor(c, p, q),
                                Xor => Z3_mk_bvxor(c, p, q),
                                Shl => Z3_mk_bvshl(c, p, q),
                                LShr => Z3_mk_bvlshr(c, p, q),
                                AShr => Z3_mk_bvashr(c, p, q),
                                Rotl => Z3_mk_ext_rotate_left(c, p, q),
                                Rotr => Z3_mk_ext_rotate_right(c, p, q),
                                Eq => Z3_mk_eq(c, p, q),
                                Ult => Z3_mk_bvult(c, p, q),
                                Ule => Z3_mk_bvule(c, p, q),
                                Slt => Z3_mk_bvslt(c, p, q),
                                Sle => Z3_mk_bvsle(c, p, q),
                                BAnd => Z3_mk_and(c, 2, [p, q].as_ptr()),
                                BOr => Z3_mk_or(c, 2, [p, q].as_ptr()),
                                _ => unreachable!(),
                            }
                        }
                    }
                }
                N::Ite(k, x, y) => {
                    let (k, x, y) = (*k, *x, *y);
                    Z3_mk_ite(c, self.bvv(a, k), self.bvv(a, x), self.bvv(a, y))
                }
                N::Extract(x, lo) => {
                    let (x, lo) = (*x, *lo);
                    let r = Z3_mk_extract(c, (lo + w - 1) as u32, lo as u32, self.bits(a, x));
                    if w == 1 { self.truth(r) } else { r }
                }
                N::Lookup(x, t) => {
                    let x = *x;
                    let idx = self.bits(a, x);
                    let is = Z3_mk_bv_sort(c, a.w[x as usize] as u32);
                    let vs = Z3_mk_bv_sort(c, w as u32);
                    let mut r = Z3_mk_unsigned_int64(c, 0, vs);
                    for (k, v) in t.iter() {
                        let cond = Z3_mk_eq(c, idx, Z3_mk_unsigned_int64(c, *k, is));
                        r = Z3_mk_ite(c, cond, Z3_mk_unsigned_int64(c, *v, vs), r);
                    }
                    if w == 1 { self.truth(r) } else { r }
                }
            }
        };
        let r = self.keep(r);
        self.bv[self.mode][i] = r;
        r
    }

    /// bit vector view, also for width 1
    fn bits(&mut self, a: &mut Arena, e: E) -> Ast {
        let x = self.bvv(a, e);
        if a.w[e as usize] != 1 {
            return x;
        }
        let c = self.c;
        unsafe {
            let s = Z3_mk_bv_sort(c, 1);
            Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
        }
    }

    /// a bit vector of width 1 as boolean
    fn truth(&self, x: Ast) -> Ast {
        let c = self.c;
        unsafe { Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) }
    }

    /// An expression over one byte as a case distinction on that byte.
    fn table(&mut self, a: &mut Arena, e: E, sv: E) -> Ast {
        let N::Var(_, lo, _) = a.nodes[sv as usize] else { unreachable!() };
        let t = a.tab(e);
        let w = a.w[e as usize];
        let x = self.bvv(a, sv);
        let c = self.c;
        unsafe {
            let bs = Z3_mk_bv_sort(c, 8);
            let k = |v: u64| {
                if w == 1 {
                    if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                } else {
                    Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w as u32))
                }
            };
            // runs of equal values, from the top down
            let mut runs: Vec<(usize, u64)> = vec![];
            for (i, v) in t.iter().enumerate() {
                if runs.last().map(|r| r.1) != Some(*v) {
                    runs.push((i, *v));
                }
            }
            let mut r = k(runs.last().unwrap().1);
            // the smallest bound ends up outermost
            for p in (1..runs.len()).rev() {
                let bound = Z3_mk_unsigned_int64(c, lo as u64 + runs[p].0 as u64, bs);
                r = Z3_mk_ite(c, Z3_mk_bvult(c, x, bound), k(runs[p - 1].1), r);
            }
            r
        }
    }

    /// Satisfiability of a conjunction; `vars` are (id, width) to report on.
    pub fn check(
        &mut self,
        a: &mut Arena,
        cs: &[E],
        vars: &[(u32, E)],
        tables: bool,
        timeout_ms: u32,
    ) -> Res {
        let t0 = Instant::now();
        let c = self.c;
        self.mode = tables as usize;
        let fp = cs.iter().any(|e| a.fp[*e as usize] && !(tables && a.svar[*e as usize] != 0));
        let s = if fp { self.float } else { self.plain };
        if timeout_ms != self.timeout {
            self.timeout = timeout_ms;
            unsafe {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let t = std::ffi::CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
                Z3_solver_set_params(c, self.plain, p);
                Z3_solver_set_params(c, self.float, p);
            }
        }
        let res = unsafe {
            Z3_solver_reset(c, s);
            for e in cs {
                let x = self.bvv(a, *e);
                Z3_solver_assert(c, s, x);
            }
            self.queries += 1;
            match Z3_solver_check(c, s) {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (id, ve) in vars {
                        let x = self.bvv(a, *ve);
                        let mut v: Ast = std::ptr::null_mut();
                        let ok = Z3_model_eval(c, m, x, true, &mut v);
                        assert!(ok);
                        Z3_inc_ref(c, v);
                        let mut n = 0u64;
                        let ok = Z3_get_numeral_uint64(c, v, &mut n);
                        assert!(ok);
                        Z3_dec_ref(c, v);
                        out.push((*id, n));
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    let r = std::ffi::CStr::from_ptr(Z3_solver_get_reason_unknown(c, s));
                    Res::Unknown(r.to_string_lossy().into_owned())
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        res
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.plain);
            Z3_solver_dec_ref(self.c, self.float);
            Z3_del_context(self.c);
        }
    }
}
