// ---- floating point values as real numbers (rounding ignored)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { _v: f32 }
impl F { pub uninterp spec fn r(&self) -> real; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct D { _v: f64 }
impl D { pub uninterp spec fn r(&self) -> real; }
pub uninterp spec fn rsqrt_(x: real) -> real;
pub uninterp spec fn rpow(x: real, y: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rlog(x: real) -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub mod rl {
#[allow(unused_imports)] use super::*;
/// product and quotient of reals: as functions, so that the laws below can be applied by pattern
#[verifier::opaque] pub open spec fn m(a: real, b: real) -> real { a * b }
#[verifier::opaque] pub open spec fn inv(a: real) -> real { 1real / a }
pub open spec fn q(a: real, b: real) -> real { m(a, inv(b)) }
pub broadcast proof fn m_comm(a: real, b: real) ensures #[trigger] m(a, b) == m(b, a) { reveal(m); assert(a * b == b * a) by (nonlinear_arith); }
pub broadcast proof fn m_assoc(a: real, b: real, c: real) ensures #[trigger] m(m(a, b), c) == m(a, m(b, c)) { reveal(m); assert((a * b) * c == a * (b * c)) by (nonlinear_arith); }
pub broadcast proof fn m_inv(a: real, b: real) requires a != 0real, b != 0real ensures #[trigger] inv(m(a, b)) == m(inv(a), inv(b)) { reveal(m); reveal(inv); assert(1real / (a * b) == (1real / a) * (1real / b)) by (nonlinear_arith) requires a != 0real, b != 0real; }
pub broadcast proof fn m_neg(a: real, b: real) ensures #[trigger] m(-a, b) == -m(a, b) { reveal(m); assert((-a) * b == -(a * b)) by (nonlinear_arith); }
pub broadcast proof fn m_one(a: real) ensures #[trigger] m(1real, a) == a { reveal(m); assert(1real * a == a) by (nonlinear_arith); }
}
use rl::*;
#[verifier::external_body] pub fn f_add(a: F, b: F) -> (r: F) ensures r.r() == a.r() + b.r() { unimplemented!() }
#[verifier::external_body] pub fn f_sub(a: F, b: F) -> (r: F) ensures r.r() == a.r() - b.r() { unimplemented!() }
#[verifier::external_body] pub fn f_mul(a: F, b: F) -> (r: F) ensures r.r() == m(a.r(), b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_div(a: F, b: F) -> (r: F) ensures r.r() == q(a.r(), b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_pow(a: F, b: F) -> (r: F) ensures r.r() == rpow(a.r(), b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_lt(a: F, b: F) -> (r: bool) ensures r == (a.r() < b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_le(a: F, b: F) -> (r: bool) ensures r == (a.r() <= b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_gt(a: F, b: F) -> (r: bool) ensures r == (a.r() > b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_ge(a: F, b: F) -> (r: bool) ensures r == (a.r() >= b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_eq(a: F, b: F) -> (r: bool) ensures r == (a.r() == b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_ne(a: F, b: F) -> (r: bool) ensures r == (a.r() != b.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_neg(a: F) -> (r: F) ensures r.r() == -a.r() { unimplemented!() }
#[verifier::external_body] pub fn f_sqrt(a: F) -> (r: F) ensures r.r() == rsqrt_(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_exp(a: F) -> (r: F) ensures r.r() == rexp(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_log(a: F) -> (r: F) ensures r.r() == rlog(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_sin(a: F) -> (r: F) ensures r.r() == rsin(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_cos(a: F) -> (r: F) ensures r.r() == rcos(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn f_lit(x: Ghost<real>) -> (r: F) ensures r.r() == x@ { unimplemented!() }
#[verifier::external_body] pub fn f_from_i64(x: i64) -> (r: F) ensures r.r() == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn f_from_i32(x: i32) -> (r: F) ensures r.r() == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn f_from_usize(x: usize) -> (r: F) ensures r.r() == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn d_add(a: D, b: D) -> (r: D) ensures r.r() == a.r() + b.r() { unimplemented!() }
#[verifier::external_body] pub fn d_sub(a: D, b: D) -> (r: D) ensures r.r() == a.r() - b.r() { unimplemented!() }
#[verifier::external_body] pub fn d_mul(a: D, b: D) -> (r: D) ensures r.r() == m(a.r(), b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_div(a: D, b: D) -> (r: D) ensures r.r() == q(a.r(), b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_pow(a: D, b: D) -> (r: D) ensures r.r() == rpow(a.r(), b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_lt(a: D, b: D) -> (r: bool) ensures r == (a.r() < b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_le(a: D, b: D) -> (r: bool) ensures r == (a.r() <= b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_gt(a: D, b: D) -> (r: bool) ensures r == (a.r() > b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_ge(a: D, b: D) -> (r: bool) ensures r == (a.r() >= b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_eq(a: D, b: D) -> (r: bool) ensures r == (a.r() == b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_ne(a: D, b: D) -> (r: bool) ensures r == (a.r() != b.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_neg(a: D) -> (r: D) ensures r.r() == -a.r() { unimplemented!() }
#[verifier::external_body] pub fn d_sqrt(a: D) -> (r: D) ensures r.r() == rsqrt_(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_exp(a: D) -> (r: D) ensures r.r() == rexp(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_log(a: D) -> (r: D) ensures r.r() == rlog(a.r()) { unimplemented!() }
#[verifier::external_body] pub fn d_lit(x: Ghost<real>) -> (r: D) ensures r.r() == x@ { unimplemented!() }
#[verifier::external_body] pub fn d_from_i64(x: i64) -> (r: D) ensures r.r() == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn d_from_i32(x: i32) -> (r: D) ensures r.r() == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn d_from_usize(x: usize) -> (r: D) ensures r.r() == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn f_to_d(a: F) -> (r: D) ensures r.r() == a.r() { unimplemented!() }
#[verifier::external_body] pub fn d_to_f(a: D) -> (r: F) ensures r.r() == a.r() { unimplemented!() }
#[verifier::external_body] pub fn i64_div(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures a >= 0 && b > 0 ==> r == a as int / b as int { unimplemented!() }
#[verifier::external_body] pub fn i64_rem(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures a >= 0 && b > 0 ==> r == a as int % b as int { unimplemented!() }
