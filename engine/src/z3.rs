//! Minimal bindings to the Z3 C API.
#![allow(non_camel_case_types)]
use std::ffi::{CStr, c_char, c_int, c_uint};

#[repr(C)]
pub struct Opaque {
    _p: [u8; 0],
}
pub type Ctx = *mut Opaque;
pub type Ast = *mut Opaque;
pub type Sort = *mut Opaque;
pub type Solver = *mut Opaque;
pub type Model = *mut Opaque;
pub type Sym = *mut Opaque;
pub type Config = *mut Opaque;
pub type Params = *mut Opaque;
pub type FuncDecl = *mut Opaque;

unsafe extern "C" {
    pub fn Z3_mk_config() -> Config;
    pub fn Z3_del_config(c: Config);
    pub fn Z3_mk_context(c: Config) -> Ctx;
    pub fn Z3_del_context(c: Ctx);
    pub fn Z3_set_error_handler(c: Ctx, h: Option<unsafe extern "C" fn(Ctx, c_int)>);
    pub fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    pub fn Z3_get_full_version() -> *const c_char;
    pub fn Z3_inc_ref(c: Ctx, a: Ast);
    pub fn Z3_dec_ref(c: Ctx, a: Ast);
    pub fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    pub fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    pub fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    pub fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    pub fn Z3_mk_unsigned_int64(c: Ctx, v: u64, s: Sort) -> Ast;
    pub fn Z3_mk_true(c: Ctx) -> Ast;
    pub fn Z3_mk_false(c: Ctx) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ext_rotate_left(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ext_rotate_right(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_sort(c: Ctx, eb: c_uint, sb: c_uint) -> Sort;
    pub fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_abs(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_neg(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_is_zero(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_is_negative(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_nan(c: Ctx, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_fp_bv(c: Ctx, bv: Ast, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, t: Ast, sz: c_uint) -> Ast;
    pub fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, t: Ast, sz: c_uint) -> Ast;
    pub fn Z3_mk_fpa_to_ieee_bv(c: Ctx, t: Ast) -> Ast;
    pub fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_push(c: Ctx, s: Solver);
    pub fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    pub fn Z3_solver_reset(c: Ctx, s: Solver);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_solver_get_reason_unknown(c: Ctx, s: Solver) -> *const c_char;
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    pub fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, s: Sym, v: c_uint);
}

pub unsafe extern "C" fn on_error(c: Ctx, e: c_int) {
    let msg = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("ENGINE-ERROR z3: {}", msg.to_string_lossy());
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
