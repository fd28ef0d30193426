// ---- uninterpreted floating point operations (generated)
pub uninterp spec fn sf_add(a: F, b: F) -> F;
#[verifier::external_body] pub fn f_add(a: F, b: F) -> (r: F) ensures r == sf_add(a, b) { unimplemented!() }
pub uninterp spec fn sf_sub(a: F, b: F) -> F;
#[verifier::external_body] pub fn f_sub(a: F, b: F) -> (r: F) ensures r == sf_sub(a, b) { unimplemented!() }
pub uninterp spec fn sf_mul(a: F, b: F) -> F;
#[verifier::external_body] pub fn f_mul(a: F, b: F) -> (r: F) ensures r == sf_mul(a, b) { unimplemented!() }
pub uninterp spec fn sf_div(a: F, b: F) -> F;
#[verifier::external_body] pub fn f_div(a: F, b: F) -> (r: F) ensures r == sf_div(a, b) { unimplemented!() }
pub open spec fn sf_min(a: F, b: F) -> F { if sf_lt(b, a) { b } else { a } }
#[verifier::external_body] pub fn f_min(a: F, b: F) -> (r: F) ensures r == sf_min(a, b) { unimplemented!() }
pub open spec fn sf_max(a: F, b: F) -> F { if sf_lt(a, b) { b } else { a } }
#[verifier::external_body] pub fn f_max(a: F, b: F) -> (r: F) ensures r == sf_max(a, b) { unimplemented!() }
pub uninterp spec fn sf_pow(a: F, b: F) -> F;
#[verifier::external_body] pub fn f_pow(a: F, b: F) -> (r: F) ensures r == sf_pow(a, b) { unimplemented!() }
pub uninterp spec fn sf_lt(a: F, b: F) -> bool;
#[verifier::external_body] pub fn f_lt(a: F, b: F) -> (r: bool) ensures r == sf_lt(a, b) { unimplemented!() }
pub uninterp spec fn sf_le(a: F, b: F) -> bool;
#[verifier::external_body] pub fn f_le(a: F, b: F) -> (r: bool) ensures r == sf_le(a, b) { unimplemented!() }
pub uninterp spec fn sf_eq(a: F, b: F) -> bool;
#[verifier::external_body] pub fn f_eq(a: F, b: F) -> (r: bool) ensures r == sf_eq(a, b) { unimplemented!() }
pub open spec fn sf_gt(a: F, b: F) -> bool { sf_lt(b, a) }
pub open spec fn sf_ge(a: F, b: F) -> bool { sf_le(b, a) }
pub open spec fn sf_ne(a: F, b: F) -> bool { !sf_eq(a, b) }
#[verifier::external_body] pub fn f_gt(a: F, b: F) -> (r: bool) ensures r == sf_gt(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_ge(a: F, b: F) -> (r: bool) ensures r == sf_ge(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_ne(a: F, b: F) -> (r: bool) ensures r == sf_ne(a, b) { unimplemented!() }
pub uninterp spec fn sf_neg(a: F) -> F;
#[verifier::external_body] pub fn f_neg(a: F) -> (r: F) ensures r == sf_neg(a) { unimplemented!() }
pub uninterp spec fn sf_abs(a: F) -> F;
#[verifier::external_body] pub fn f_abs(a: F) -> (r: F) ensures r == sf_abs(a) { unimplemented!() }
pub uninterp spec fn sf_exp(a: F) -> F;
#[verifier::external_body] pub fn f_exp(a: F) -> (r: F) ensures r == sf_exp(a) { unimplemented!() }
pub uninterp spec fn sf_log(a: F) -> F;
#[verifier::external_body] pub fn f_log(a: F) -> (r: F) ensures r == sf_log(a) { unimplemented!() }
pub uninterp spec fn sf_sqrt(a: F) -> F;
#[verifier::external_body] pub fn f_sqrt(a: F) -> (r: F) ensures r == sf_sqrt(a) { unimplemented!() }
pub uninterp spec fn sf_sin(a: F) -> F;
#[verifier::external_body] pub fn f_sin(a: F) -> (r: F) ensures r == sf_sin(a) { unimplemented!() }
pub uninterp spec fn sf_cos(a: F) -> F;
#[verifier::external_body] pub fn f_cos(a: F) -> (r: F) ensures r == sf_cos(a) { unimplemented!() }
pub uninterp spec fn sf_tanh(a: F) -> F;
#[verifier::external_body] pub fn f_tanh(a: F) -> (r: F) ensures r == sf_tanh(a) { unimplemented!() }
pub uninterp spec fn sf_floor(a: F) -> F;
#[verifier::external_body] pub fn f_floor(a: F) -> (r: F) ensures r == sf_floor(a) { unimplemented!() }
pub uninterp spec fn sf_ceil(a: F) -> F;
#[verifier::external_body] pub fn f_ceil(a: F) -> (r: F) ensures r == sf_ceil(a) { unimplemented!() }
pub uninterp spec fn sf_round(a: F) -> F;
#[verifier::external_body] pub fn f_round(a: F) -> (r: F) ensures r == sf_round(a) { unimplemented!() }
pub uninterp spec fn sf_erf(a: F) -> F;
#[verifier::external_body] pub fn f_erf(a: F) -> (r: F) ensures r == sf_erf(a) { unimplemented!() }
pub uninterp spec fn sf_log1p(a: F) -> F;
#[verifier::external_body] pub fn f_log1p(a: F) -> (r: F) ensures r == sf_log1p(a) { unimplemented!() }
pub uninterp spec fn sf_tan(a: F) -> F;
#[verifier::external_body] pub fn f_tan(a: F) -> (r: F) ensures r == sf_tan(a) { unimplemented!() }
pub uninterp spec fn sf_rsqrt(a: F) -> F;
#[verifier::external_body] pub fn f_rsqrt(a: F) -> (r: F) ensures r == sf_rsqrt(a) { unimplemented!() }
pub uninterp spec fn sf_isnan(a: F) -> bool;
#[verifier::external_body] pub fn f_isnan(a: F) -> (r: bool) ensures r == sf_isnan(a) { unimplemented!() }
pub uninterp spec fn sf_isinf(a: F) -> bool;
#[verifier::external_body] pub fn f_isinf(a: F) -> (r: bool) ensures r == sf_isinf(a) { unimplemented!() }
pub uninterp spec fn sf_isfinite(a: F) -> bool;
#[verifier::external_body] pub fn f_isfinite(a: F) -> (r: bool) ensures r == sf_isfinite(a) { unimplemented!() }
pub uninterp spec fn sf_lit(x: real) -> F;
pub open spec fn sf_int(x: int) -> F { sf_lit(x as real) }
#[verifier::external_body] pub fn f_lit(x: Ghost<real>) -> (r: F) ensures r == sf_lit(x@) { unimplemented!() }
#[verifier::external_body] pub fn f_from_i64(x: i64) -> (r: F) ensures r == sf_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn f_from_i32(x: i32) -> (r: F) ensures r == sf_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn f_from_usize(x: usize) -> (r: F) ensures r == sf_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn f_from_u8(x: u8) -> (r: F) ensures r == sf_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn f_from_u32(x: u32) -> (r: F) ensures r == sf_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn f_from_u16(x: u16) -> (r: F) ensures r == sf_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn f_from_bool(x: bool) -> (r: F) ensures r == sf_int(if x { 1 } else { 0 }) { unimplemented!() }
pub uninterp spec fn sf_to_i64(x: F) -> i64;
#[verifier::external_body] pub fn f_to_i64(x: F) -> (r: i64) ensures r == sf_to_i64(x) { unimplemented!() }
pub uninterp spec fn sf_to_i32(x: F) -> i32;
#[verifier::external_body] pub fn f_to_i32(x: F) -> (r: i32) ensures r == sf_to_i32(x) { unimplemented!() }
pub uninterp spec fn sf_to_usize(x: F) -> usize;
#[verifier::external_body] pub fn f_to_usize(x: F) -> (r: usize) ensures r == sf_to_usize(x) { unimplemented!() }
pub uninterp spec fn sf_to_u8(x: F) -> u8;
#[verifier::external_body] pub fn f_to_u8(x: F) -> (r: u8) ensures r == sf_to_u8(x) { unimplemented!() }
pub uninterp spec fn sf_to_u32(x: F) -> u32;
#[verifier::external_body] pub fn f_to_u32(x: F) -> (r: u32) ensures r == sf_to_u32(x) { unimplemented!() }
#[verifier::external_body] pub fn f_to_bool(x: F) -> (r: bool) ensures r == sf_ne(x, sf_lit(0real)) { unimplemented!() }
pub uninterp spec fn sd_add(a: D, b: D) -> D;
#[verifier::external_body] pub fn d_add(a: D, b: D) -> (r: D) ensures r == sd_add(a, b) { unimplemented!() }
pub uninterp spec fn sd_sub(a: D, b: D) -> D;
#[verifier::external_body] pub fn d_sub(a: D, b: D) -> (r: D) ensures r == sd_sub(a, b) { unimplemented!() }
pub uninterp spec fn sd_mul(a: D, b: D) -> D;
#[verifier::external_body] pub fn d_mul(a: D, b: D) -> (r: D) ensures r == sd_mul(a, b) { unimplemented!() }
pub uninterp spec fn sd_div(a: D, b: D) -> D;
#[verifier::external_body] pub fn d_div(a: D, b: D) -> (r: D) ensures r == sd_div(a, b) { unimplemented!() }
pub open spec fn sd_min(a: D, b: D) -> D { if sd_lt(b, a) { b } else { a } }
#[verifier::external_body] pub fn d_min(a: D, b: D) -> (r: D) ensures r == sd_min(a, b) { unimplemented!() }
pub open spec fn sd_max(a: D, b: D) -> D { if sd_lt(a, b) { b } else { a } }
#[verifier::external_body] pub fn d_max(a: D, b: D) -> (r: D) ensures r == sd_max(a, b) { unimplemented!() }
pub uninterp spec fn sd_pow(a: D, b: D) -> D;
#[verifier::external_body] pub fn d_pow(a: D, b: D) -> (r: D) ensures r == sd_pow(a, b) { unimplemented!() }
pub uninterp spec fn sd_lt(a: D, b: D) -> bool;
#[verifier::external_body] pub fn d_lt(a: D, b: D) -> (r: bool) ensures r == sd_lt(a, b) { unimplemented!() }
pub uninterp spec fn sd_le(a: D, b: D) -> bool;
#[verifier::external_body] pub fn d_le(a: D, b: D) -> (r: bool) ensures r == sd_le(a, b) { unimplemented!() }
pub uninterp spec fn sd_eq(a: D, b: D) -> bool;
#[verifier::external_body] pub fn d_eq(a: D, b: D) -> (r: bool) ensures r == sd_eq(a, b) { unimplemented!() }
pub open spec fn sd_gt(a: D, b: D) -> bool { sd_lt(b, a) }
pub open spec fn sd_ge(a: D, b: D) -> bool { sd_le(b, a) }
pub open spec fn sd_ne(a: D, b: D) -> bool { !sd_eq(a, b) }
#[verifier::external_body] pub fn d_gt(a: D, b: D) -> (r: bool) ensures r == sd_gt(a, b) { unimplemented!() }
#[verifier::external_body] pub fn d_ge(a: D, b: D) -> (r: bool) ensures r == sd_ge(a, b) { unimplemented!() }
#[verifier::external_body] pub fn d_ne(a: D, b: D) -> (r: bool) ensures r == sd_ne(a, b) { unimplemented!() }
pub uninterp spec fn sd_neg(a: D) -> D;
#[verifier::external_body] pub fn d_neg(a: D) -> (r: D) ensures r == sd_neg(a) { unimplemented!() }
pub uninterp spec fn sd_abs(a: D) -> D;
#[verifier::external_body] pub fn d_abs(a: D) -> (r: D) ensures r == sd_abs(a) { unimplemented!() }
pub uninterp spec fn sd_exp(a: D) -> D;
#[verifier::external_body] pub fn d_exp(a: D) -> (r: D) ensures r == sd_exp(a) { unimplemented!() }
pub uninterp spec fn sd_log(a: D) -> D;
#[verifier::external_body] pub fn d_log(a: D) -> (r: D) ensures r == sd_log(a) { unimplemented!() }
pub uninterp spec fn sd_sqrt(a: D) -> D;
#[verifier::external_body] pub fn d_sqrt(a: D) -> (r: D) ensures r == sd_sqrt(a) { unimplemented!() }
pub uninterp spec fn sd_sin(a: D) -> D;
#[verifier::external_body] pub fn d_sin(a: D) -> (r: D) ensures r == sd_sin(a) { unimplemented!() }
pub uninterp spec fn sd_cos(a: D) -> D;
#[verifier::external_body] pub fn d_cos(a: D) -> (r: D) ensures r == sd_cos(a) { unimplemented!() }
pub uninterp spec fn sd_tanh(a: D) -> D;
#[verifier::external_body] pub fn d_tanh(a: D) -> (r: D) ensures r == sd_tanh(a) { unimplemented!() }
pub uninterp spec fn sd_floor(a: D) -> D;
#[verifier::external_body] pub fn d_floor(a: D) -> (r: D) ensures r == sd_floor(a) { unimplemented!() }
pub uninterp spec fn sd_ceil(a: D) -> D;
#[verifier::external_body] pub fn d_ceil(a: D) -> (r: D) ensures r == sd_ceil(a) { unimplemented!() }
pub uninterp spec fn sd_round(a: D) -> D;
#[verifier::external_body] pub fn d_round(a: D) -> (r: D) ensures r == sd_round(a) { unimplemented!() }
pub uninterp spec fn sd_erf(a: D) -> D;
#[verifier::external_body] pub fn d_erf(a: D) -> (r: D) ensures r == sd_erf(a) { unimplemented!() }
pub uninterp spec fn sd_log1p(a: D) -> D;
#[verifier::external_body] pub fn d_log1p(a: D) -> (r: D) ensures r == sd_log1p(a) { unimplemented!() }
pub uninterp spec fn sd_tan(a: D) -> D;
#[verifier::external_body] pub fn d_tan(a: D) -> (r: D) ensures r == sd_tan(a) { unimplemented!() }
pub uninterp spec fn sd_rsqrt(a: D) -> D;
#[verifier::external_body] pub fn d_rsqrt(a: D) -> (r: D) ensures r == sd_rsqrt(a) { unimplemented!() }
pub uninterp spec fn sd_isnan(a: D) -> bool;
#[verifier::external_body] pub fn d_isnan(a: D) -> (r: bool) ensures r == sd_isnan(a) { unimplemented!() }
pub uninterp spec fn sd_isinf(a: D) -> bool;
#[verifier::external_body] pub fn d_isinf(a: D) -> (r: bool) ensures r == sd_isinf(a) { unimplemented!() }
pub uninterp spec fn sd_isfinite(a: D) -> bool;
#[verifier::external_body] pub fn d_isfinite(a: D) -> (r: bool) ensures r == sd_isfinite(a) { unimplemented!() }
pub uninterp spec fn sd_lit(x: real) -> D;
pub open spec fn sd_int(x: int) -> D { sd_lit(x as real) }
#[verifier::external_body] pub fn d_lit(x: Ghost<real>) -> (r: D) ensures r == sd_lit(x@) { unimplemented!() }
#[verifier::external_body] pub fn d_from_i64(x: i64) -> (r: D) ensures r == sd_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn d_from_i32(x: i32) -> (r: D) ensures r == sd_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn d_from_usize(x: usize) -> (r: D) ensures r == sd_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn d_from_u8(x: u8) -> (r: D) ensures r == sd_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn d_from_u32(x: u32) -> (r: D) ensures r == sd_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn d_from_u16(x: u16) -> (r: D) ensures r == sd_int(x as int) { unimplemented!() }
#[verifier::external_body] pub fn d_from_bool(x: bool) -> (r: D) ensures r == sd_int(if x { 1 } else { 0 }) { unimplemented!() }
pub uninterp spec fn sd_to_i64(x: D) -> i64;
#[verifier::external_body] pub fn d_to_i64(x: D) -> (r: i64) ensures r == sd_to_i64(x) { unimplemented!() }
pub uninterp spec fn sd_to_i32(x: D) -> i32;
#[verifier::external_body] pub fn d_to_i32(x: D) -> (r: i32) ensures r == sd_to_i32(x) { unimplemented!() }
pub uninterp spec fn sd_to_usize(x: D) -> usize;
#[verifier::external_body] pub fn d_to_usize(x: D) -> (r: usize) ensures r == sd_to_usize(x) { unimplemented!() }
pub uninterp spec fn sd_to_u8(x: D) -> u8;
#[verifier::external_body] pub fn d_to_u8(x: D) -> (r: u8) ensures r == sd_to_u8(x) { unimplemented!() }
pub uninterp spec fn sd_to_u32(x: D) -> u32;
#[verifier::external_body] pub fn d_to_u32(x: D) -> (r: u32) ensures r == sd_to_u32(x) { unimplemented!() }
#[verifier::external_body] pub fn d_to_bool(x: D) -> (r: bool) ensures r == sd_ne(x, sd_lit(0real)) { unimplemented!() }
pub uninterp spec fn sf_to_d(a: F) -> D;
#[verifier::external_body] pub fn f_to_d(a: F) -> (r: D) ensures r == sf_to_d(a) { unimplemented!() }
pub uninterp spec fn sd_to_f(a: D) -> F;
#[verifier::external_body] pub fn d_to_f(a: D) -> (r: F) ensures r == sd_to_f(a) { unimplemented!() }
pub uninterp spec fn sf_inf() -> F;
#[verifier::external_body] pub fn f_inf() -> (r: F) ensures r == sf_inf() { unimplemented!() }
pub uninterp spec fn sf_fmax() -> F;
#[verifier::external_body] pub fn f_fmax() -> (r: F) ensures r == sf_fmax() { unimplemented!() }
pub uninterp spec fn sf_eps() -> F;
#[verifier::external_body] pub fn f_eps() -> (r: F) ensures r == sf_eps() { unimplemented!() }
pub uninterp spec fn sf_tiny() -> F;
#[verifier::external_body] pub fn f_tiny() -> (r: F) ensures r == sf_tiny() { unimplemented!() }
pub uninterp spec fn sf_nan() -> F;
#[verifier::external_body] pub fn f_nan() -> (r: F) ensures r == sf_nan() { unimplemented!() }
pub uninterp spec fn sd_inf() -> D;
#[verifier::external_body] pub fn d_inf() -> (r: D) ensures r == sd_inf() { unimplemented!() }
pub uninterp spec fn sd_fmax() -> D;
#[verifier::external_body] pub fn d_fmax() -> (r: D) ensures r == sd_fmax() { unimplemented!() }
pub uninterp spec fn sd_eps() -> D;
#[verifier::external_body] pub fn d_eps() -> (r: D) ensures r == sd_eps() { unimplemented!() }
pub uninterp spec fn sd_tiny() -> D;
#[verifier::external_body] pub fn d_tiny() -> (r: D) ensures r == sd_tiny() { unimplemented!() }
pub uninterp spec fn sd_nan() -> D;
#[verifier::external_body] pub fn d_nan() -> (r: D) ensures r == sd_nan() { unimplemented!() }
// memset(p, 0, nbytes) over float elements: the zero byte pattern is the float 0 (IEEE-754)
#[verifier::external_body]
pub fn memset_zero(w: &mut World, p: Ptr, nbytes: i64)
    requires nbytes >= 0, nbytes % 4 == 0,
        nbytes > 0 ==> inb(old(w).f@, p.b, p.o as int) && inb(old(w).f@, p.b, p.o + nbytes / 4 - 1),
    ensures nbytes == 0 ==> final(w).f == old(w).f,
        nbytes > 0 ==> final(w).f@ == old(w).f@.insert(p.b, Seq::new(old(w).f@[p.b].len(), |k: int| if p.o <= k < p.o + nbytes / 4 { sf_int(0) } else { old(w).f@[p.b][k] })),
        final(w).i == old(w).i, final(w).b == old(w).b,
{ unimplemented!() }
