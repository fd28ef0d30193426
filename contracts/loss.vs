@tu
#include "Operation/OpLossCpu.cpp"
@opt type=Tensor=>T
@opt type=tinytorch::Tensor=>T
@opt type=Scalar=>T
@opt type=tinytorch::Scalar=>T
@opt type=Options=>Op
@opt type=tinytorch::Options=>Op
@opt type=LossReduction=>Lr
@opt type=tinytorch::LossReduction=>Lr
@opt type=ArrayView<Tensor>=>Vec<T>
@opt type=tinytorch::ArrayView<tinytorch::Tensor>=>Vec<T>
@opt type=TensorListView=>Vec<T>
@opt type=tinytorch::TensorIteratorCpu<tinytorch::Tensor, tinytorch::Tensor>=>It2
@opt type=tinytorch::TensorIteratorCpu<tinytorch::Tensor, tinytorch::Tensor, tinytorch::Tensor>=>It3
@opt type=TensorIteratorCpu<tinytorch::Tensor, tinytorch::Tensor>=>It2
@opt type=TensorIteratorCpu<tinytorch::Tensor, tinytorch::Tensor, tinytorch::Tensor>=>It3
@opt type=TensorIteratorCpu<Tensor, Tensor>=>It2
@opt type=TensorIteratorCpu<Tensor, Tensor, Tensor>=>It3
@opt copytype=T Op Lr
@opt method=T.options/0=>0
@opt method=Op.noGrad/0=>0
@opt method=T.dim/0=>t_dim($this)
@opt method=T.dtype/0=>t_dtype($this)
@opt method=T.shape/0=>(&t_shape($this))
@opt method=T.shape/1=>t_size($this, $0)
@opt method=T.numel/0=>t_numel($this)
@opt call=tinytorch::Tensor::scalar/2=>$0
@opt cast=i32/T=>t_scalar(f_from_i32(%s))
@opt cast=i64/T=>t_scalar(f_from_i64(%s))
@opt cast=F/T=>t_scalar(%s)
@opt call=ctor T/2=>t_new(&$0)
@opt call=ctor It2/2=>it2($0, $1)
@opt call=ctor It3/3=>it3($0, $1, $2)
@opt method=It2.setupBroadcast/0=>(&it_setup2(&mut $this))
@opt method=It3.setupBroadcast/0=>(&it_setup3(&mut $this))
@opt method=It2.isBroadcastOk/0=>it_ok2(&$this)
@opt method=It3.isBroadcastOk/0=>it_ok3(&$this)
@opt method=It2.forEach/2=>! it_each2(&$this, &mut $0, $L1)
@opt method=It3.forEach/2=>! it_each3(&$this, &mut $0, $L1)
@opt call=arange/4=>t_arange($0, $1, $2)
@opt call=tinytorch::Tensor::zeros/2=>t_zeros(&$0)
@opt call=tinytorch::op::mean/1=>t_mean($0)
@opt call=tinytorch::op::sum/1=>t_sum($0)
@opt call=tinytorch::op::neg/1=>t_neg($0)
@opt call=tinytorch::op::indexAdvance/2=>t_index(&$0, &$1)
@opt call=tinytorch::op::indexPutAdvance/3=>! t_put(&mut $0, &$1, $2)
@opt call=tinytorch::op::mulInplace/2=>! { let s_ = $1; t_mul_in(&mut $0, s_) }
@opt call=tinytorch::op::divInplace/2=>! { let s_ = $1; t_div_in(&mut $0, s_) }
@prelude real
@raw
pub type Op = usize;
broadcast use rl::m_comm, rl::m_assoc, rl::m_one, rl::m_neg, ls::m_mone, ls::m_two, ls::m_lneg, ls::prod0, ls::prod1;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Lr { NONE, MEAN, SUM }
#[verifier::external_body] pub fn trap() requires false { unimplemented!() }
/// a tensor's value. sh: extents. v: elements in row-major order. iv: elements of an integer tensor. dt: element type.
/// own: made here, so that nobody else holds it (only such a tensor may be changed)
pub struct Tv { pub sh: Seq<int>, pub v: Seq<real>, pub iv: Seq<int>, pub dt: int, pub own: bool }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct T { _p: u8 }
impl T { pub uninterp spec fn tv(&self) -> Tv; }
pub open spec fn ints(s: Seq<i64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub mod ls {
#[allow(unused_imports)] use super::*;
pub open spec fn prod(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 1 } else { s.last() * prod(s.drop_last()) } }
pub broadcast proof fn prod0(s: Seq<int>) requires s.len() == 0 ensures #[trigger] prod(s) == 1 {}
pub broadcast proof fn prod1(s: Seq<int>) requires s.len() == 1 ensures #[trigger] prod(s) == s[0] { assert(s.drop_last().len() == 0); assert(prod(s.drop_last()) == 1); }
pub broadcast proof fn m_mone(a: real) ensures #[trigger] m(a, -1real) == -a { reveal(m); assert(a * (-1real) == -a) by (nonlinear_arith); }
pub broadcast proof fn m_two(a: real) ensures #[trigger] m(2real, a) == a + a { reveal(m); assert(2real * a == a + a) by (nonlinear_arith); }
pub broadcast proof fn m_lneg(a: real, b: real) ensures #[trigger] m(-a, b) == -m(a, b) { reveal(m); assert((-a) * b == -(a * b)) by (nonlinear_arith); }
/// every real is the value of a float (rounding ignored)
pub uninterp spec fn fof(x: real) -> F;
pub broadcast axiom fn ax_fof(x: real) ensures (#[trigger] fof(x)).r() == x;
}
use ls::*;
pub open spec fn tok(t: Tv) -> bool { t.v.len() == prod(t.sh) && 0 <= prod(t.sh) < 0x1000_0000_0000_0000 && forall|d: int| 0 <= d < t.sh.len() ==> 0 <= #[trigger] t.sh[d] < 0x1000_0000_0000_0000 }
pub open spec fn iok(t: Tv) -> bool { t.dt == 4 && t.sh.len() == 1 && t.sh[0] == t.iv.len() && t.iv.len() < 0x1000_0000_0000_0000 }
pub open spec fn rsum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() } }
/// position of a class or row index, counted from the end if negative
pub open spec fn wrap(i: int, n: int) -> int { if i < 0 { i + n } else { i } }
pub open spec fn inr(i: int, n: int) -> bool { -n <= i < n }
/// broadcasting of two shapes
pub open spec fn mx(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn padsh(s: Seq<int>, n: int, i: int) -> int { if i < n - s.len() { 1 } else { s[i - (n - s.len())] } }
pub open spec fn bshn(a: Seq<int>, b: Seq<int>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| if padsh(a, n, i) == 1 { padsh(b, n, i) } else { padsh(a, n, i) }) }
pub open spec fn bsh(a: Seq<int>, b: Seq<int>) -> Seq<int> { bshn(a, b, mx(a.len() as int, b.len() as int)) }
pub open spec fn bcokn(a: Seq<int>, b: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] padsh(a, n, i) == 1 || padsh(b, n, i) == 1 || padsh(a, n, i) == padsh(b, n, i) }
pub open spec fn bcok(a: Seq<int>, b: Seq<int>) -> bool { bcokn(a, b, mx(a.len() as int, b.len() as int)) }
/// the element of a tensor of shape s that is read at position k of shape o
pub open spec fn proj(s: Seq<int>, o: Seq<int>, k: int) -> int decreases s.len() {
    if s.len() == 0 || o.len() == 0 { 0 } else { (if s.last() == 1 { 0 } else { k % o.last() }) + s.last() * proj(s.drop_last(), o.drop_last(), k / o.last()) } }
pub open spec fn rd(t: Tv, o: Seq<int>, k: int) -> real { t.v[proj(t.sh, o, k)] }
/// tensors of one shape are read element by element
proof fn lemma_proj_same(s: Seq<int>, k: int)
    requires forall|d: int| 0 <= d < s.len() ==> #[trigger] s[d] >= 0, 0 <= k < prod(s)
    ensures proj(s, s, k) == k
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.last(); let p = prod(s.drop_last());
        assert(s[s.len() - 1] >= 0);
        assert(d > 0 && p > 0 && 0 <= k / d < p) by (nonlinear_arith) requires d >= 0, 0 <= k < d * p;
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] >= 0 by { assert(s[i] >= 0); }
        lemma_proj_same(s.drop_last(), k / d);
        assert(k == d * (k / d) + k % d) by (nonlinear_arith) requires d > 0;
        if d == 1 { assert(k % 1 == 0) by (nonlinear_arith); }
    }
}
proof fn lemma_bsh_one(a: Seq<int>, b: Seq<int>) ensures b.len() == 0 ==> bsh(a, b) == a && bcok(a, b) { if b.len() == 0 { assert(bsh(a, b) =~= a); assert forall|i: int| 0 <= i < a.len() implies padsh(b, a.len() as int, i) == 1 by {} } }
proof fn lemma_bsh_same(a: Seq<int>) ensures bsh(a, a) == a, bcok(a, a) { assert(bsh(a, a) =~= a); }
proof fn lemma_sum1(s: Seq<real>) requires s.len() == 1 ensures rsum(s) == s[0] { reveal_with_fuel(rsum, 2); assert(s.drop_last().len() == 0); }
/// distinct rows never address the same element
proof fn lemma_row(i: int, j: int, i2: int, j2: int, c: int)
    requires 0 <= j < c, 0 <= j2 < c, i * c + j == i2 * c + j2
    ensures i == i2, j == j2
{ assert(i == i2) by (nonlinear_arith) requires 0 <= j < c, 0 <= j2 < c, i * c + j == i2 * c + j2; }
proof fn lemma_in(i: int, j: int, n: int, c: int) requires 0 <= i < n, 0 <= j < c ensures 0 <= i * c + j < c * n { assert(0 <= i * c + j < c * n) by (nonlinear_arith) requires 0 <= i < n, 0 <= j < c; }
// ---- float expressions in element functions
pub open spec fn sf_add(a: F, b: F) -> F { fof(a.r() + b.r()) }
pub open spec fn sf_sub(a: F, b: F) -> F { fof(a.r() - b.r()) }
pub open spec fn sf_mul(a: F, b: F) -> F { fof(m(a.r(), b.r())) }
pub open spec fn sf_div(a: F, b: F) -> F { fof(q(a.r(), b.r())) }
pub open spec fn sf_neg(a: F) -> F { fof(-a.r()) }
pub open spec fn sf_from_i32(a: i32) -> F { fof(a as int as real) }
pub open spec fn sf_from_i64(a: i64) -> F { fof(a as int as real) }
pub open spec fn sf_lit(a: real) -> F { fof(a) }
// ---- tensor operations (their kernels: C03, C04, C06, C07, C19)
#[verifier::external_body] pub fn t_dim(t: T) -> (r: i64) ensures r == t.tv().sh.len() { unimplemented!() }
#[verifier::external_body] pub fn t_dtype(t: T) -> (r: i32) ensures r == t.tv().dt { unimplemented!() }
#[verifier::external_body] pub fn t_size(t: T, d: i64) -> (r: i64) requires -(t.tv().sh.len() as int) <= d < t.tv().sh.len() ensures r == t.tv().sh[wrap(d as int, t.tv().sh.len() as int)] { unimplemented!() }
#[verifier::external_body] pub fn t_shape(t: T) -> (r: Vec<i64>) ensures ints(r@) == t.tv().sh { unimplemented!() }
#[verifier::external_body] pub fn t_numel(t: T) -> (r: i64) requires tok(t.tv()) ensures r == prod(t.tv().sh) { unimplemented!() }
#[verifier::external_body] pub fn t_scalar(x: F) -> (r: T) ensures r.tv().own, tok(r.tv()), r.tv().sh == Seq::<int>::empty(), r.tv().v == seq![x.r()] { unimplemented!() }
#[verifier::external_body] pub fn t_new(s: &Vec<i64>) -> (r: T) requires prod(ints(s@)) >= 0 ensures r.tv().own, r.tv().sh == ints(s@), r.tv().v.len() == prod(ints(s@)) { unimplemented!() }
#[verifier::external_body] pub fn t_zeros(s: &Vec<i64>) -> (r: T) requires prod(ints(s@)) >= 0 ensures r.tv().own, r.tv().sh == ints(s@), r.tv().v == Seq::new(prod(ints(s@)) as nat, |k: int| 0real) { unimplemented!() }
#[verifier::external_body] pub fn t_arange(a: i64, b: i64, s: i64) -> (r: T) requires a == 0, b >= 0, b < 0x1000_0000_0000_0000, s == 1 ensures r.tv().own, iok(r.tv()), r.tv().iv == Seq::new(b as nat, |k: int| k) { unimplemented!() }
#[verifier::external_body] pub fn t_mean(t: T) -> (r: T) requires tok(t.tv()) ensures r.tv().own, tok(r.tv()), r.tv().sh == Seq::<int>::empty(), r.tv().v == seq![q(rsum(t.tv().v), prod(t.tv().sh) as real)] { unimplemented!() }
#[verifier::external_body] pub fn t_sum(t: T) -> (r: T) requires tok(t.tv()) ensures r.tv().own, tok(r.tv()), r.tv().sh == Seq::<int>::empty(), r.tv().v == seq![rsum(t.tv().v)] { unimplemented!() }
#[verifier::external_body] pub fn t_neg(t: T) -> (r: T) requires tok(t.tv()) ensures r.tv().own, r.tv().sh == t.tv().sh, r.tv().v == Seq::new(t.tv().v.len(), |k: int| -t.tv().v[k]) { unimplemented!() }
#[verifier::external_body] pub fn t_mul_in(t: &mut T, s: T) requires old(t).tv().own, tok(old(t).tv()), s.tv().sh.len() == 0, s.tv().v.len() == 1 ensures final(t).tv().own, final(t).tv().sh == old(t).tv().sh, final(t).tv().v == Seq::new(old(t).tv().v.len(), |k: int| m(old(t).tv().v[k], s.tv().v[0])) { unimplemented!() }
#[verifier::external_body] pub fn t_div_in(t: &mut T, s: T) requires old(t).tv().own, tok(old(t).tv()), s.tv().sh.len() == 0, s.tv().v.len() == 1 ensures final(t).tv().own, final(t).tv().sh == old(t).tv().sh, final(t).tv().v == Seq::new(old(t).tv().v.len(), |k: int| q(old(t).tv().v[k], s.tv().v[0])) { unimplemented!() }
/// two index tensors of one length address elements of a matrix
pub open spec fn idx2(t: Tv, ix: Seq<T>) -> bool {
    ix.len() == 2 && t.sh.len() == 2 && iok(ix[0].tv()) && iok(ix[1].tv()) && ix[0].tv().iv.len() == ix[1].tv().iv.len()
    && (forall|k: int| 0 <= k < ix[0].tv().iv.len() ==> inr(#[trigger] ix[0].tv().iv[k], t.sh[0])) && (forall|k: int| 0 <= k < ix[1].tv().iv.len() ==> inr(#[trigger] ix[1].tv().iv[k], t.sh[1]))
}
pub open spec fn pos(t: Tv, a: Tv, b: Tv, k: int) -> int { wrap(a.iv[k], t.sh[0]) * t.sh[1] + wrap(b.iv[k], t.sh[1]) }
#[verifier::external_body] pub fn t_index(t: &T, ix: &Vec<T>) -> (r: T) requires tok(t.tv()), idx2(t.tv(), ix@) ensures r.tv().own, tok(r.tv()), r.tv().sh == seq![ix@[0].tv().iv.len() as int], r.tv().v == Seq::new(ix@[0].tv().iv.len(), |k: int| t.tv().v[pos(t.tv(), ix@[0].tv(), ix@[1].tv(), k)]) { unimplemented!() }
pub open spec fn gk(g: Tv, k: int) -> real { if g.sh.len() == 0 { g.v[0] } else { g.v[k] } }
#[verifier::external_body] pub fn t_put(t: &mut T, ix: &Vec<T>, g: T)
    requires old(t).tv().own, tok(old(t).tv()), idx2(old(t).tv(), ix@), g.tv().sh.len() == 0 && g.tv().v.len() == 1 || g.tv().sh == seq![ix@[0].tv().iv.len() as int] && g.tv().v.len() == ix@[0].tv().iv.len()
    ensures final(t).tv().own, final(t).tv().sh == old(t).tv().sh, final(t).tv().v.len() == old(t).tv().v.len(),
        forall|k: int| 0 <= k < ix@[0].tv().iv.len() && (forall|e: int| k < e < ix@[0].tv().iv.len() ==> pos(old(t).tv(), ix@[0].tv(), ix@[1].tv(), e) != pos(old(t).tv(), ix@[0].tv(), ix@[1].tv(), k)) ==> final(t).tv().v[#[trigger] pos(old(t).tv(), ix@[0].tv(), ix@[1].tv(), k)] == gk(g.tv(), k),
        forall|x: int| 0 <= x < old(t).tv().v.len() && (forall|k: int| 0 <= k < ix@[0].tv().iv.len() ==> pos(old(t).tv(), ix@[0].tv(), ix@[1].tv(), k) != x) ==> #[trigger] final(t).tv().v[x] == old(t).tv().v[x]
{ unimplemented!() }
// ---- the broadcasting iterator (C04)
#[verifier::external_body] pub struct It2 { _p: u8 }
impl It2 { pub uninterp spec fn a(&self) -> Tv; pub uninterp spec fn b(&self) -> Tv; pub uninterp spec fn set(&self) -> bool; pub open spec fn sh(&self) -> Seq<int> { bsh(self.a().sh, self.b().sh) } }
#[verifier::external_body] pub struct It3 { _p: u8 }
impl It3 { pub uninterp spec fn a(&self) -> Tv; pub uninterp spec fn b(&self) -> Tv; pub uninterp spec fn c(&self) -> Tv; pub uninterp spec fn set(&self) -> bool; pub open spec fn sh(&self) -> Seq<int> { bsh(bsh(self.a().sh, self.b().sh), self.c().sh) } }
#[verifier::external_body] pub fn it2(a: T, b: T) -> (r: It2) requires tok(a.tv()), tok(b.tv()) ensures r.a() == a.tv(), r.b() == b.tv(), !r.set() { unimplemented!() }
#[verifier::external_body] pub fn it3(a: T, b: T, c: T) -> (r: It3) requires tok(a.tv()), tok(b.tv()), tok(c.tv()) ensures r.a() == a.tv(), r.b() == b.tv(), r.c() == c.tv(), !r.set() { unimplemented!() }
#[verifier::external_body] pub fn it_setup2(t: &mut It2) -> (r: Vec<i64>) ensures final(t).a() == old(t).a(), final(t).b() == old(t).b(), final(t).set(), bcok(old(t).a().sh, old(t).b().sh) ==> ints(r@) == old(t).sh() { unimplemented!() }
#[verifier::external_body] pub fn it_setup3(t: &mut It3) -> (r: Vec<i64>) ensures final(t).a() == old(t).a(), final(t).b() == old(t).b(), final(t).c() == old(t).c(), final(t).set(), bcok(old(t).a().sh, old(t).b().sh) && bcok(bsh(old(t).a().sh, old(t).b().sh), old(t).c().sh) ==> ints(r@) == old(t).sh() { unimplemented!() }
#[verifier::external_body] pub fn it_ok2(t: &It2) -> (r: bool) requires t.set() ensures r == bcok(t.a().sh, t.b().sh) { unimplemented!() }
#[verifier::external_body] pub fn it_ok3(t: &It3) -> (r: bool) requires t.set() ensures bcok(t.a().sh, t.b().sh) && bcok(bsh(t.a().sh, t.b().sh), t.c().sh) ==> r { unimplemented!() }
#[verifier::external_body] pub fn it_each2(t: &It2, o: &mut T, f: Ghost<spec_fn(F, F) -> F>) requires old(o).tv().own, t.set(), bcok(t.a().sh, t.b().sh), old(o).tv().sh == t.sh(), old(o).tv().v.len() == prod(t.sh())
    ensures final(o).tv().own, final(o).tv().sh == t.sh(), final(o).tv().v == Seq::new(prod(t.sh()) as nat, |k: int| f@(fof(rd(t.a(), t.sh(), k)), fof(rd(t.b(), t.sh(), k))).r()) { unimplemented!() }
#[verifier::external_body] pub fn it_each3(t: &It3, o: &mut T, f: Ghost<spec_fn(F, F, F) -> F>) requires old(o).tv().own, t.set(), bcok(t.a().sh, t.b().sh), bcok(bsh(t.a().sh, t.b().sh), t.c().sh), old(o).tv().sh == t.sh(), old(o).tv().v.len() == prod(t.sh())
    ensures final(o).tv().own, final(o).tv().sh == t.sh(), final(o).tv().v == Seq::new(prod(t.sh()) as nat, |k: int| f@(fof(rd(t.a(), t.sh(), k)), fof(rd(t.b(), t.sh(), k)), fof(rd(t.c(), t.sh(), k))).r()) { unimplemented!() }
// ---- what the losses are
/// the prescribed result of reducing the terms s of shape sh
pub open spec fn reduced(o: Tv, s: Seq<real>, sh: Seq<int>, r: Lr) -> bool {
    match r { Lr::NONE => o.sh == sh && o.v == s, Lr::SUM => o.sh.len() == 0 && o.v == seq![rsum(s)], Lr::MEAN => o.sh.len() == 0 && o.v == seq![q(rsum(s), s.len() as real)] } }
pub open spec fn bigok(s: Seq<int>) -> bool { 0 <= prod(s) < 0x1000_0000_0000_0000 && forall|d: int| 0 <= d < s.len() ==> 0 <= #[trigger] s[d] < 0x1000_0000_0000_0000 }
/// a sample's own target class
pub open spec fn cls(a: Tv, t: Tv, i: int) -> int { wrap(t.iv[i], a.sh[1]) }
pub open spec fn nllin(a: Tv, t: Tv) -> bool { tok(a) && a.sh.len() == 2 && iok(t) && t.sh[0] == a.sh[0] && forall|i: int| 0 <= i < a.sh[0] ==> inr(#[trigger] t.iv[i], a.sh[1]) }
pub open spec fn nllterms(a: Tv, t: Tv) -> Seq<real> { Seq::new(a.sh[0] as nat, |i: int| -a.v[i * a.sh[1] + cls(a, t, i)]) }
pub open spec fn mseterms(a: Tv, b: Tv) -> Seq<real> { Seq::new(prod(bsh(a.sh, b.sh)) as nat, |k: int| m(rd(a, bsh(a.sh, b.sh), k) - rd(b, bsh(a.sh, b.sh), k), rd(a, bsh(a.sh, b.sh), k) - rd(b, bsh(a.sh, b.sh), k))) }
@fn nllf = tinytorch::op::nllLossOpCpuImpl<float>
@w none
@req
nllin(input.tv(), target.tv()),
@ens
reduced(res.tv(), nllterms(input.tv(), target.tv()), seq![input.tv().sh[0]], reduction),
@at after /t_mul_in/
assert((-1i32) as int as real == -1real);
assert(out.tv().v =~= nllterms(input.tv(), target.tv())); assert(prod(out.tv().sh) == out.tv().v.len()) by { reveal_with_fuel(prod, 2); assert(out.tv().sh.drop_last().len() == 0); }
@at exit
assert forall|s: Seq<real>| s.len() == 1 implies #[trigger] rsum(s) == s[0] by { lemma_sum1(s); }
@fn nllb = tinytorch::op::nllLossOpBackwardCpuImpl<float>
@w none
@req
nllin(input.tv(), target.tv()), tok(grad.tv()), grad.tv().sh.len() == 0 || grad.tv().sh == seq![input.tv().sh[0]],
@ens
res.tv().sh == input.tv().sh,
forall|i: int, j: int| 0 <= i < input.tv().sh[0] && 0 <= j < input.tv().sh[1] ==> #[trigger] res.tv().v[i * input.tv().sh[1] + j] == if j == cls(input.tv(), target.tv(), i) { if reduction == Lr::MEAN { q(-gk(grad.tv(), i), input.tv().sh[0] as real) } else { -gk(grad.tv(), i) } } else { 0real },
@at exit
let n = input.tv().sh[0]; let c = input.tv().sh[1];
assert forall|i: int, j: int| 0 <= i < n && 0 <= j < c implies #[trigger] res.tv().v[i * c + j] == (if j == cls(input.tv(), target.tv(), i) { gk(sampleGrad.tv(), i) } else { 0real }) by {
    lemma_in(i, j, n, c);
    assert(prod(input.tv().sh) == c * n) by { reveal_with_fuel(prod, 3); assert(input.tv().sh.drop_last().len() == 1); }
    if j == cls(input.tv(), target.tv(), i) {
        assert forall|e: int| i < e < n implies pos(oo, idx.tv(), target.tv(), e) != pos(oo, idx.tv(), target.tv(), i) by { if pos(oo, idx.tv(), target.tv(), e) == pos(oo, idx.tv(), target.tv(), i) { lemma_row(e, cls(input.tv(), target.tv(), e), i, j, c); } }
        assert(pos(oo, idx.tv(), target.tv(), i) == i * c + j);
    } else {
        assert forall|k: int| 0 <= k < n implies pos(oo, idx.tv(), target.tv(), k) != i * c + j by { if pos(oo, idx.tv(), target.tv(), k) == i * c + j { lemma_row(k, cls(input.tv(), target.tv(), k), i, j, c); } }
        assert(oo.v[i * c + j] == 0real);
    }
}
@at before /t_put/
oo = out.tv();
@at entry
let ghost mut oo: Tv = arbitrary();
@fn msef = tinytorch::op::mseLossOpCpuImpl<float>
@w none
@req
tok(input.tv()), tok(target.tv()), bcok(input.tv().sh, target.tv().sh), bigok(bsh(input.tv().sh, target.tv().sh)),
@ens
reduced(res.tv(), mseterms(input.tv(), target.tv()), bsh(input.tv().sh, target.tv().sh), reduction),
@at after /it_each/
assert forall|x: real| (#[trigger] fof(x)).r() == x by { ls::ax_fof(x); }
assert(out.tv().v =~= mseterms(input.tv(), target.tv()));
@at exit
assert forall|s: Seq<real>| s.len() == 1 implies #[trigger] rsum(s) == s[0] by { lemma_sum1(s); }
@fn mseb = tinytorch::op::mseLossOpBackwardCpuImpl<float>
@w none
@req
tok(input.tv()), tok(target.tv()), tok(grad.tv()), bcok(input.tv().sh, target.tv().sh), bigok(bsh(input.tv().sh, target.tv().sh)), grad.tv().sh.len() == 0 || grad.tv().sh == bsh(input.tv().sh, target.tv().sh),
@ens
res.tv().sh == bsh(input.tv().sh, target.tv().sh), res.tv().v.len() == prod(res.tv().sh),
forall|k: int| 0 <= k < res.tv().v.len() ==> #[trigger] res.tv().v[k] == { let d = m(m(2real, rd(input.tv(), res.tv().sh, k) - rd(target.tv(), res.tv().sh, k)), rd(grad.tv(), res.tv().sh, k)); if reduction == Lr::MEAN { q(d, prod(res.tv().sh) as real) } else { d } },
@at after /it_each/
assert forall|x: real| (#[trigger] fof(x)).r() == x by { ls::ax_fof(x); }
@at entry
lemma_bsh_one(bsh(input.tv().sh, target.tv().sh), grad.tv().sh); lemma_bsh_same(bsh(input.tv().sh, target.tv().sh));
