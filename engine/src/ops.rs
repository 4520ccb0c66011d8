//! Numeric operators of WebAssembly and their concrete semantics.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[rustfmt::skip]
pub enum B {
    Add32, Sub32, Mul32, DivS32, DivU32, RemS32, RemU32, And32, Or32, Xor32, Shl32, ShrS32, ShrU32, Rotl32, Rotr32,
    Eq32, Ne32, LtS32, LtU32, GtS32, GtU32, LeS32, LeU32, GeS32, GeU32,
    Add64, Sub64, Mul64, DivS64, DivU64, RemS64, RemU64, And64, Or64, Xor64, Shl64, ShrS64, ShrU64, Rotl64, Rotr64,
    Eq64, Ne64, LtS64, LtU64, GtS64, GtU64, LeS64, LeU64, GeS64, GeU64,
    FAdd32, FSub32, FMul32, FDiv32, FMin32, FMax32, FCopy32, FEq32, FNe32, FLt32, FGt32, FLe32, FGe32,
    FAdd64, FSub64, FMul64, FDiv64, FMin64, FMax64, FCopy64, FEq64, FNe64, FLt64, FGt64, FLe64, FGe64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[rustfmt::skip]
pub enum U {
    Clz32, Ctz32, Popcnt32, Eqz32, Clz64, Ctz64, Popcnt64, Eqz64,
    Ext8S32, Ext16S32, Ext8S64, Ext16S64, Ext32S64, Wrap, ExtS, ExtU,
    FAbs32, FNeg32, FCeil32, FFloor32, FTrunc32, FNearest32, FSqrt32,
    FAbs64, FNeg64, FCeil64, FFloor64, FTrunc64, FNearest64, FSqrt64,
    // float -> int, saturating (`T` variants trap instead)
    Sat32SF32, Sat32UF32, Sat32SF64, Sat32UF64, Sat64SF32, Sat64UF32, Sat64SF64, Sat64UF64,
    T32SF32, T32UF32, T32SF64, T32UF64, T64SF32, T64UF32, T64SF64, T64UF64,
    // int -> float
    F32S32, F32U32, F32S64, F32U64, F64S32, F64U32, F64S64, F64U64,
    Demote, Promote,
}

fn f(a: u64) -> f64 {
    f64::from_bits(a)
}
fn g(a: u64) -> f32 {
    f32::from_bits(a as u32)
}

pub fn fmin64(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == 0.0 && b == 0.0 {
        if a.is_sign_negative() { a } else { b }
    } else if a < b {
        a
    } else {
        b
    }
}
pub fn fmax64(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == 0.0 && b == 0.0 {
        if a.is_sign_negative() { b } else { a }
    } else if a > b {
        a
    } else {
        b
    }
}

/// Concrete evaluation. Division traps must have been excluded by the caller.
#[inline(always)]
pub fn bin(op: B, a: u64, b: u64) -> u64 {
    let (x, y) = (a as u32, b as u32);
    let (sx, sy) = (x as i32, y as i32);
    let (sa, sb) = (a as i64, b as i64);
    macro_rules! w {
        ($e:expr) => {
            ($e) as u32 as u64
        };
    }
    match op {
        B::Add32 => w!(x.wrapping_add(y)),
        B::Sub32 => w!(x.wrapping_sub(y)),
        B::Mul32 => w!(x.wrapping_mul(y)),
        B::DivS32 => w!(sx.wrapping_div(sy)),
        B::DivU32 => w!(x / y),
        B::RemS32 => w!(sx.wrapping_rem(sy)),
        B::RemU32 => w!(x % y),
        B::And32 => w!(x & y),
        B::Or32 => w!(x | y),
        B::Xor32 => w!(x ^ y),
        B::Shl32 => w!(x.wrapping_shl(y)),
        B::ShrS32 => w!(sx.wrapping_shr(y)),
        B::ShrU32 => w!(x.wrapping_shr(y)),
        B::Rotl32 => w!(x.rotate_left(y & 31)),
        B::Rotr32 => w!(x.rotate_right(y & 31)),
        B::Eq32 => (x == y) as u64,
        B::Ne32 => (x != y) as u64,
        B::LtS32 => (sx < sy) as u64,
        B::LtU32 => (x < y) as u64,
        B::GtS32 => (sx > sy) as u64,
        B::GtU32 => (x > y) as u64,
        B::LeS32 => (sx <= sy) as u64,
        B::LeU32 => (x <= y) as u64,
        B::GeS32 => (sx >= sy) as u64,
        B::GeU32 => (x >= y) as u64,
        B::Add64 => a.wrapping_add(b),
        B::Sub64 => a.wrapping_sub(b),
        B::Mul64 => a.wrapping_mul(b),
        B::DivS64 => sa.wrapping_div(sb) as u64,
        B::DivU64 => a / b,
        B::RemS64 => sa.wrapping_rem(sb) as u64,
        B::RemU64 => a % b,
        B::And64 => a & b,
        B::Or64 => a | b,
        B::Xor64 => a ^ b,
        B::Shl64 => a.wrapping_shl(b as u32),
        B::ShrS64 => sa.wrapping_shr(b as u32) as u64,
        B::ShrU64 => a.wrapping_shr(b as u32),
        B::Rotl64 => a.rotate_left(b as u32 & 63),
        B::Rotr64 => a.rotate_right(b as u32 & 63),
        B::Eq64 => (a == b) as u64,
        B::Ne64 => (a != b) as u64,
        B::LtS64 => (sa < sb) as u64,
        B::LtU64 => (a < b) as u64,
        B::GtS64 => (sa > sb) as u64,
        B::GtU64 => (a > b) as u64,
        B::LeS64 => (sa <= sb) as u64,
        B::LeU64 => (a <= b) as u64,
        B::GeS64 => (sa >= sb) as u64,
        B::GeU64 => (a >= b) as u64,
        B::FAdd32 => w!((g(a) + g(b)).to_bits()),
        B::FSub32 => w!((g(a) - g(b)).to_bits()),
        B::FMul32 => w!((g(a) * g(b)).to_bits()),
        B::FDiv32 => w!((g(a) / g(b)).to_bits()),
        B::FMin32 => w!((fmin64(g(a) as f64, g(b) as f64) as f32).to_bits()),
        B::FMax32 => w!((fmax64(g(a) as f64, g(b) as f64) as f32).to_bits()),
        B::FCopy32 => w!((x & 0x7fff_ffff) | (y & 0x8000_0000)),
        B::FEq32 => (g(a) == g(b)) as u64,
        B::FNe32 => (g(a) != g(b)) as u64,
        B::FLt32 => (g(a) < g(b)) as u64,
        B::FGt32 => (g(a) > g(b)) as u64,
        B::FLe32 => (g(a) <= g(b)) as u64,
        B::FGe32 => (g(a) >= g(b)) as u64,
        B::FAdd64 => (f(a) + f(b)).to_bits(),
        B::FSub64 => (f(a) - f(b)).to_bits(),
        B::FMul64 => (f(a) * f(b)).to_bits(),
        B::FDiv64 => (f(a) / f(b)).to_bits(),
        B::FMin64 => fmin64(f(a), f(b)).to_bits(),
        B::FMax64 => fmax64(f(a), f(b)).to_bits(),
        B::FCopy64 => (a & !(1 << 63)) | (b & (1 << 63)),
        B::FEq64 => (f(a) == f(b)) as u64,
        B::FNe64 => (f(a) != f(b)) as u64,
        B::FLt64 => (f(a) < f(b)) as u64,
        B::FGt64 => (f(a) > f(b)) as u64,
        B::FLe64 => (f(a) <= f(b)) as u64,
        B::FGe64 => (f(a) >= f(b)) as u64,
    }
}

#[inline(always)]
pub fn un(op: U, a: u64) -> u64 {
    let x = a as u32;
    macro_rules! w {
        ($e:expr) => {
            ($e) as u32 as u64
        };
    }
    match op {
        U::Clz32 => x.leading_zeros() as u64,
        U::Ctz32 => x.trailing_zeros() as u64,
        U::Popcnt32 => x.count_ones() as u64,
        U::Eqz32 => (x == 0) as u64,
        U::Clz64 => a.leading_zeros() as u64,
        U::Ctz64 => a.trailing_zeros() as u64,
        U::Popcnt64 => a.count_ones() as u64,
        U::Eqz64 => (a == 0) as u64,
        U::Ext8S32 => w!(a as u8 as i8 as i32),
        U::Ext16S32 => w!(a as u16 as i16 as i32),
        U::Ext8S64 => a as u8 as i8 as i64 as u64,
        U::Ext16S64 => a as u16 as i16 as i64 as u64,
        U::Ext32S64 | U::ExtS => x as i32 as i64 as u64,
        U::Wrap | U::ExtU => x as u64,
        U::FAbs32 => (x & 0x7fff_ffff) as u64,
        U::FNeg32 => (x ^ 0x8000_0000) as u64,
        U::FCeil32 => w!(g(a).ceil().to_bits()),
        U::FFloor32 => w!(g(a).floor().to_bits()),
        U::FTrunc32 => w!(g(a).trunc().to_bits()),
        U::FNearest32 => w!(g(a).round_ties_even().to_bits()),
        U::FSqrt32 => w!(g(a).sqrt().to_bits()),
        U::FAbs64 => a & !(1 << 63),
        U::FNeg64 => a ^ (1 << 63),
        U::FCeil64 => f(a).ceil().to_bits(),
        U::FFloor64 => f(a).floor().to_bits(),
        U::FTrunc64 => f(a).trunc().to_bits(),
        U::FNearest64 => f(a).round_ties_even().to_bits(),
        U::FSqrt64 => f(a).sqrt().to_bits(),
        U::Sat32SF32 | U::T32SF32 => w!(g(a) as i32),
        U::Sat32UF32 | U::T32UF32 => w!(g(a) as u32),
        U::Sat32SF64 | U::T32SF64 => w!(f(a) as i32),
        U::Sat32UF64 | U::T32UF64 => w!(f(a) as u32),
        U::Sat64SF32 | U::T64SF32 => g(a) as i64 as u64,
        U::Sat64UF32 | U::T64UF32 => g(a) as u64,
        U::Sat64SF64 | U::T64SF64 => f(a) as i64 as u64,
        U::Sat64UF64 | U::T64UF64 => f(a) as u64,
        U::F32S32 => w!((x as i32 as f32).to_bits()),
        U::F32U32 => w!((x as f32).to_bits()),
        U::F32S64 => w!((a as i64 as f32).to_bits()),
        U::F32U64 => w!((a as f32).to_bits()),
        U::F64S32 => (x as i32 as f64).to_bits(),
        U::F64U32 => (x as f64).to_bits(),
        U::F64S64 => (a as i64 as f64).to_bits(),
        U::F64U64 => (a as f64).to_bits(),
        U::Demote => w!((f(a) as f32).to_bits()),
        U::Promote => (g(a) as f64).to_bits(),
    }
}
