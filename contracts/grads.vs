@tu
#include "Operation/OpElemWiseCpu.cpp"
#include "Functions.h"
@opt type=Tensor=>T
@opt type=tinytorch::Tensor=>T
@opt type=Scalar=>T
@opt type=tinytorch::Scalar=>T
@opt type=AutogradContext *=>Cx
@opt type=tinytorch::AutogradContext *=>Cx
@opt type=TensorList=>Tl
@opt type=std::vector<Tensor>=>Tl
@opt type=std::vector<tinytorch::Tensor>=>Tl
@opt type=Options=>Op
@opt type=tinytorch::Options=>Op
@opt type=IValue=>IV
@opt type=tinytorch::IValue=>IV
@opt type=std::deque<IValue>=>Sd
@opt type=std::deque<tinytorch::IValue>=>Sd
@opt type=std::vector<IValue>=>Vec<IV>
@opt type=std::vector<tinytorch::IValue>=>Vec<IV>
@opt type=LossReduction=>Lr
@opt type=tinytorch::LossReduction=>Lr
@opt type=Dim2D=>Dm
@opt type=tinytorch::Dim2D=>Dm
@opt copytype=T Cx Tl Op IV Sd Lr Dm
@opt pointer=Cx Op Tl Sd
@opt field=AutogradContext.savedInputs=>$this
@opt field=AutogradContext.savedData=>$this
@opt index=Tl=>in_get(w, $b, $k) | in_set(w, $b, $k, $x)
@opt method=T.requiresGrad/0=>t_rg($this)
@opt method=T.defined/0=>t_defined($this)
@opt method=T.addGrad/1=>! add_grad(w, $this, $0)
@opt method=T.dim/0=>t_dim($this)
@opt method=T.shape/0=>(&t_shape($this))
@opt method=T.shape/1=>t_size($this, $0)
@opt method=T.options/0=>0
@opt method=Op.noGrad/0=>0
@opt method=T.clone/0=>t_clone($this)
@opt method=Sd.front/0=>sd_front(w, $this)
@opt method=Cx.popData/0=>= cx_pop(w, $this)
@opt method=Cx.pushData/1=>! cx_push(w, $this, $0)
@opt method=IV.toFloat/0=>iv_f($this)
@opt method=IV.toBool/0=>iv_b($this)
@opt method=IV.toInt64/0=>iv_i($this)
@opt method=IV.toTensor/0=>iv_t($this)
@opt method=IV.toList/0=>iv_l($this)
@opt method=IV.toDim2D/0=>iv_d($this)
@opt method=IV.toEnum/0=>iv_e($this)
@opt call=tinytorch::Tensor::scalar/2=>$0
@opt call=tinytorch::Tensor::onesLike/2=>t_ones($0)
@opt cast=F/T=>t_scalar(%s)
@opt cast=i32/T=>t_scalar(f_from_i32(%s))
@opt cast=i64/T=>t_scalar(f_from_i64(%s))
@opt cast=bool/IV=>iv_from_b(%s)
@opt cast=i64/IV=>iv_from_i(%s)
@opt cast=F/IV=>iv_from_f(%s)
@opt cast=T/IV=>iv_from_t(%s)
@opt cast=Dm/IV=>iv_from_d(%s)
@opt cast=Lr/IV=>iv_from_e(%s)
@opt cast=Vec<IV>/IV=>iv_from_l(%s)
@opt method=Vec<IV>.emplace_back/1=>! il_push(&mut $this, iv_from_i($0))
@opt method=Vec<i64>.back/0=>vback(&$this)
@opt field=Dim2D.h=>$this.h
@opt field=Dim2D.w=>$this.w
@opt call=ctor Dm/2=>dm_new($0, $1)
@opt method=T.to/0=>t_f($this)
@opt method=T.permute/0=>t_permall($this)
@opt method=T.reshape_/1=>! t_reshape_in(&mut $this, &$0)
@opt method=T.numel/0=>t_numel($this)
@opt call=tinytorch::op::softmax/2=>= t_softmax(w, $0, $1)
@opt call=tinytorch::op::logSoftmax/2=>= t_logsoftmax(w, $0, $1)
@opt call=tinytorch::op::mseLoss/3=>= t_mse(w, $0, $1, $2)
@opt call=tinytorch::op::mseLossBackward/4=>t_mseb($0, $1, $2, $3)
@opt call=tinytorch::op::nllLoss/3=>= t_nll(w, $0, $1, $2)
@opt call=tinytorch::op::nllLossBackward/4=>t_nllb($0, $1, $2, $3)
@opt call=tinytorch::op::matmul/4=>t_mm($0, $1, $2, $3)
@opt call=tinytorch::op::sumOnDim/3=>t_sumdim($0, $1, $2)
@opt call=tinytorch::op::sub/3=>t_subs($0, $1, $2)
@opt call=ctor Al/1=>$0
@opt method=Op.dtype/1=>0
@opt call=tinytorch::Tensor::arange/4=>t_arange($0, $1, $2)
@opt call=tinytorch::Tensor::zeros/2=>t_zeros(&$0)
@opt call=tinytorch::op::fillMaskedInplace/3=>! t_fillmask_in(&mut $0, $1, $2)
@opt call=operator==/2@T=>t_eqs($0, $1)
@opt call=tinytorch::op::maxOnDim/3=>t_maxdim($0, $1, $2)
@opt call=tinytorch::op::dropoutMasked/3=>t_dropmask($0, $1, $2)
@opt call=tinytorch::op::addInplace/3=>! t_add_in(&mut $0, $1, $2)
@opt call=tinytorch::op::im2col/4=>t_im2col($0, $1, $2, $3)
@opt call=tinytorch::op::col2im/5=>t_col2im($0, &$1, $2, $3, $4)
@opt call=tinytorch::op::indexPutAdvance/3=>! t_put(&mut $0, &$1, $2)
@opt call=tinytorch::Tensor::bernoulli/3=>= t_bern(w, &$0, $1)
@opt call=operator</2=>t_lt($0, $1)
@opt call=tinytorch::op::mul/2=>t_mul($0, $1)
@opt call=tinytorch::op::div/2=>t_div($0, $1)
@opt call=tinytorch::op::divBackwardP2/3=>t_divb2($0, $1, $2)
@opt call=tinytorch::op::powBackwardP1/3=>t_powb1($0, $1, $2)
@opt call=tinytorch::op::powBackwardP2/3=>t_powb2($0, $1, $2)
@opt call=tinytorch::op::sinBackwardP1/2=>t_sinb($0, $1)
@opt call=tinytorch::op::cosBackwardP1/2=>t_cosb($0, $1)
@opt call=tinytorch::op::fillMasked/3=>t_fillmask($0, $1, $2)
@opt call=tinytorch::op::sumOnDims/3=>t_sumdims($0, &$1, $2)
@opt call=tinytorch::op::reshape/2=>t_reshape($0, &$1)
@opt call=tinytorch::op::reshapeInplace/2=>! t_reshape_in(&mut $0, &$1)
@opt call=tinytorch::op::permute/2=>t_permute($0, &$1)
@opt call=tinytorch::op::permuteAll/1=>t_permall($0)
@opt call=tinytorch::op::softmaxBackward/3=>t_smb($0, $1, $2)
@opt call=tinytorch::op::logSoftmaxBackward/3=>t_lsmb($0, $1, $2)
@prelude real
@raw
global size_of usize == 8;
pub type Cx = usize; pub type Op = usize; pub type Tl = usize; pub type Sd = usize;
broadcast use rl::m_comm, rl::m_assoc, rl::m_inv, rl::m_one, rl::m_neg, bc::bsh_to, bc::bsh_of, bc::bsh_empty, bc::bsh_empty2, bc::prod_ones, bc::ints2, bc::ints3, bc::ints4;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Dm { pub h: i64, pub w: i64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Lr { NONE, MEAN, SUM }
/// a tensor as a backward rule sees it. sh: its shape. v: its element at one arbitrary position of the operation's
/// broadcast index space (a smaller tensor is read at the position's projection). red: the dimensions of that space the
/// tensor has been summed over (then v is the summand). x: its whole value, as a term over the operations that made it.
/// slot: which recorded input it is, rg: whether it requires a gradient.
pub struct Tv { pub def: bool, pub rg: bool, pub slot: int, pub sh: Seq<int>, pub v: real, pub red: ISet<int>, pub x: int }
pub enum IVal { B(bool), I(int), Fl(real), D2(Dm), Ts(Tv), L(Seq<int>), E(Lr) }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct T { _p: u8 }
impl T { pub uninterp spec fn tv(&self) -> Tv; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct IV { _p: u8 }
impl IV { pub uninterp spec fn iv(&self) -> IVal; }
/// got: per recorded input, the gradients delivered so far. ins, data: the recorded inputs and saved values of each context
pub struct St { pub got: Map<int, Seq<Tv>>, pub ins: Map<Cx, Seq<Tv>>, pub data: Map<Cx, Seq<IVal>> }
#[verifier::external_body]
pub struct World { _p: u8 }
impl World { pub uninterp spec fn v(&self) -> St; }
pub mod bc {
#[allow(unused_imports)] use super::*;
pub open spec fn ints(s: Seq<i64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub broadcast proof fn ints2(s: Seq<i64>) requires s.len() == 2 ensures #[trigger] ints(s) == seq![s[0] as int, s[1] as int] { assert(ints(s) =~= seq![s[0] as int, s[1] as int]); }
pub broadcast proof fn ints4(s: Seq<i64>) requires s.len() == 4 ensures #[trigger] ints(s) == seq![s[0] as int, s[1] as int, s[2] as int, s[3] as int] { assert(ints(s) =~= seq![s[0] as int, s[1] as int, s[2] as int, s[3] as int]); }
pub broadcast proof fn ints3(s: Seq<i64>) requires s.len() == 3 ensures #[trigger] ints(s) == seq![s[0] as int, s[1] as int, s[2] as int] { assert(ints(s) =~= seq![s[0] as int, s[1] as int, s[2] as int]); }
pub open spec fn padsh(s: Seq<int>, n: int, i: int) -> int { if i < n - s.len() { 1 } else { s[i - (n - s.len())] } }
pub open spec fn mx(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn bdim(a: int, b: int) -> int { if a == 1 { b } else { a } }
pub open spec fn bsh(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(mx(a.len() as int, b.len() as int) as nat, |i: int| bdim(padsh(a, mx(a.len() as int, b.len() as int), i), padsh(b, mx(a.len() as int, b.len() as int), i))) }
/// the two shapes broadcast together
#[verifier::opaque] pub open spec fn bcok(a: Seq<int>, b: Seq<int>) -> bool { forall|i: int| 0 <= i < mx(a.len() as int, b.len() as int) ==> #[trigger] padsh(a, mx(a.len() as int, b.len() as int), i) == 1 || padsh(b, mx(a.len() as int, b.len() as int), i) == 1 || padsh(a, mx(a.len() as int, b.len() as int), i) == padsh(b, mx(a.len() as int, b.len() as int), i) }
/// shape a can be expanded to shape g
#[verifier::opaque] pub open spec fn bcto(a: Seq<int>, g: Seq<int>) -> bool { a.len() <= g.len() && forall|i: int| 0 <= i < g.len() ==> #[trigger] padsh(a, g.len() as int, i) == 1 || padsh(a, g.len() as int, i) == g[i] }
pub open spec fn prod(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 1 } else { s.last() * prod(s.drop_last()) } }
/// s preceded by dimensions of size one
#[verifier::opaque] pub open spec fn lead1(a: Seq<int>, s: Seq<int>) -> bool { a.len() >= s.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == padsh(s, a.len() as int, i) }
pub broadcast proof fn bsh_to(a: Seq<int>, g: Seq<int>) requires #[trigger] bcto(a, g)
    ensures bsh(a, g) == g, bsh(g, a) == g, bcok(a, g), bcok(g, a)
{
    reveal(bcto); reveal(bcok);
    assert(mx(a.len() as int, g.len() as int) == g.len());
    assert forall|i: int| 0 <= i < g.len() implies padsh(g, g.len() as int, i) == g[i] by {}
    assert(bsh(a, g) =~= g);
    assert forall|i: int| 0 <= i < g.len() implies bsh(g, a)[i] == g[i] by { assert(padsh(a, g.len() as int, i) == 1 || padsh(a, g.len() as int, i) == g[i]); }
    assert(bsh(g, a) =~= g);
}
pub broadcast proof fn bsh_of(a: Seq<int>, b: Seq<int>) requires #[trigger] bcok(a, b)
    ensures bcto(a, bsh(a, b)), bcto(b, bsh(a, b)), bcok(b, a), bsh(b, a) == bsh(a, b), bcto(bsh(a, b), bsh(a, b))
{
    reveal(bcto); reveal(bcok);
    let n = mx(a.len() as int, b.len() as int); let g = bsh(a, b);
    assert(g.len() == n);
    assert forall|i: int| 0 <= i < n implies (padsh(a, n, i) == 1 || padsh(a, n, i) == g[i]) && (padsh(b, n, i) == 1 || padsh(b, n, i) == g[i]) && padsh(g, n, i) == g[i] && bsh(b, a)[i] == g[i] by { assert(padsh(a, n, i) == 1 || padsh(b, n, i) == 1 || padsh(a, n, i) == padsh(b, n, i)); }
    assert(bsh(b, a) =~= g);
    assert forall|i: int| 0 <= i < mx(b.len() as int, a.len() as int) implies #[trigger] padsh(b, mx(b.len() as int, a.len() as int), i) == 1 || padsh(a, mx(b.len() as int, a.len() as int), i) == 1 || padsh(b, mx(b.len() as int, a.len() as int), i) == padsh(a, mx(b.len() as int, a.len() as int), i) by { assert(padsh(a, n, i) == 1 || padsh(b, n, i) == 1 || padsh(a, n, i) == padsh(b, n, i)); }
}
pub broadcast proof fn bsh_empty(a: Seq<int>, b: Seq<int>) requires b.len() == 0
    ensures #[trigger] bcok(a, b), bcto(b, a), bsh(a, b) == a, bsh(b, a) == a
{
    reveal(bcto); reveal(bcok);
    assert(bsh(a, b) =~= a); assert(bsh(b, a) =~= a);
}
pub broadcast proof fn bsh_empty2(a: Seq<int>, b: Seq<int>) requires b.len() == 0 ensures #[trigger] bsh(a, b) == a { assert(bsh(a, b) =~= a); }
pub broadcast proof fn prod_ones(a: Seq<int>, s: Seq<int>) requires #[trigger] lead1(a, s) ensures prod(a) == prod(s) decreases a.len()
{
    reveal(lead1); reveal_with_fuel(prod, 2);
    if a.len() == 0 { assert(s.len() == 0); }
    else if s.len() == 0 {
        assert(a.last() == padsh(s, a.len() as int, a.len() - 1));
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i] == padsh(s, a.len() - 1, i) by { assert(a[i] == padsh(s, a.len() as int, i)); }
        prod_ones(a.drop_last(), s);
    } else {
        assert(a.last() == padsh(s, a.len() as int, a.len() - 1));
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i] == padsh(s.drop_last(), a.len() - 1, i) by { assert(a[i] == padsh(s, a.len() as int, i)); }
        prod_ones(a.drop_last(), s.drop_last());
    }
}
}
use bc::*;
/// the dimensions a gradient of shape g is summed over to reach shape s
pub open spec fn redset(s: Seq<int>, g: Seq<int>) -> ISet<int> { ISet::new(|i: int| 0 <= i < g.len() && padsh(s, g.len() as int, i) == 1 && g[i] != 1) }
pub open spec fn inv_perm(p: Seq<int>, q: Seq<int>) -> bool { p.len() == q.len() && forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < q.len() && q[p[i]] == i }
pub uninterp spec fn xreshape(x: int, s: Seq<int>) -> int;
pub uninterp spec fn xperm(x: int, d: Seq<int>) -> int;
pub uninterp spec fn xpermall(x: int) -> int;
pub uninterp spec fn xsm(x: int, d: int) -> int;
pub uninterp spec fn xsmb(g: int, o: int, d: int) -> int;
pub uninterp spec fn xlsm(x: int, d: int) -> int;
pub uninterp spec fn xlsmb(g: int, o: int, d: int) -> int;
pub uninterp spec fn xnllb(g: int, i: int, t: int, r: Lr) -> int;
pub uninterp spec fn xmm(a: int, b: int, ta: bool, tb: bool) -> int;
pub uninterp spec fn xsum1(a: int, d: int, k: bool) -> int;
pub uninterp spec fn xadd(a: int, b: int) -> int;
pub uninterp spec fn xcol(a: int, k: Dm, s: Dm, p: Dm) -> int;
pub uninterp spec fn xcolim(a: int, sh: Seq<int>, k: Dm, s: Dm, p: Dm) -> int;
pub open spec fn pshape(s: Seq<int>, d: Seq<int>) -> Seq<int> { Seq::new(d.len(), |i: int| s[d[i]]) }
pub open spec fn known(d: Seq<int>) -> Seq<int> { Seq::new(d.len(), |i: int| if d[i] == -1 { 1int } else { d[i] }) }
/// the entry -1 takes what is left of the number of elements
pub open spec fn rshape(s: Seq<int>, d: Seq<int>) -> Seq<int> { Seq::new(d.len(), |i: int| if d[i] == -1 { prod(s) / prod(known(d)) } else { d[i] }) }
pub open spec fn rs_ok(s: Seq<int>, d: Seq<int>) -> bool { if nonneg(d) { prod(s) == prod(d) } else { prod(known(d)) > 0 && prod(s) % prod(known(d)) == 0 } }
pub proof fn prod2(a: int, b: int) ensures prod(seq![a, b]) == a * b { reveal_with_fuel(prod, 4); assert(seq![a, b].drop_last() =~= seq![a]); assert(seq![a].drop_last() =~= Seq::<int>::empty()); assert(b * a == a * b) by (nonlinear_arith); }
pub proof fn prod3(a: int, b: int, c: int) ensures prod(seq![a, b, c]) == (a * b) * c { reveal_with_fuel(prod, 2); assert(seq![a, b, c].drop_last() =~= seq![a, b]); prod2(a, b); assert(c * (a * b) == (a * b) * c) by (nonlinear_arith); }
pub proof fn prod4(a: int, b: int, c: int, d: int) ensures prod(seq![a, b, c, d]) == ((a * b) * c) * d { reveal_with_fuel(prod, 2); assert(seq![a, b, c, d].drop_last() =~= seq![a, b, c]); prod3(a, b, c); assert(d * ((a * b) * c) == ((a * b) * c) * d) by (nonlinear_arith); }
pub open spec fn nonneg(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= i64::MAX }
pub open spec fn tok(t: Tv) -> bool { t.def && nonneg(t.sh) && t.sh.len() < 0x4000_0000 && bcto(t.sh, t.sh) && t.red == ISet::<int>::empty() }
#[verifier::external_body] pub fn t_rg(a: T) -> (r: bool) ensures r == a.tv().rg { unimplemented!() }
#[verifier::external_body] pub fn t_defined(a: T) -> (r: bool) ensures r == a.tv().def { unimplemented!() }
#[verifier::external_body] pub fn t_dim(a: T) -> (r: i64) requires a.tv().def ensures r == a.tv().sh.len() { unimplemented!() }
#[verifier::external_body] pub fn t_size(a: T, i: i64) -> (r: i64) requires a.tv().def, 0 <= i < a.tv().sh.len(), nonneg(a.tv().sh) ensures r == a.tv().sh[i as int] { unimplemented!() }
#[verifier::external_body] pub fn t_shape(a: T) -> (r: Vec<i64>) requires a.tv().def, nonneg(a.tv().sh) ensures ints(r@) == a.tv().sh, r@.len() == a.tv().sh.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a.tv().sh[i] { unimplemented!() }
#[verifier::external_body] pub fn t_clone(a: T) -> (r: T) requires a.tv().def ensures r.tv() == a.tv() { unimplemented!() }
#[verifier::external_body] pub fn veq(a: &Vec<i64>, b: &Vec<i64>) -> (r: bool) ensures r == (ints(a@) == ints(b@)) { unimplemented!() }
#[verifier::external_body] pub fn vset(v: &mut Vec<i64>, i: usize, x: i64) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { unimplemented!() }
#[verifier::external_body] pub fn vfill(n: usize, x: i64) -> (r: Vec<i64>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body] pub fn vback(v: &Vec<i64>) -> (r: i64) requires v@.len() > 0 ensures r == v@.last() { unimplemented!() }
#[verifier::external_body] pub fn i64_max(a: i64, b: i64) -> (r: i64) ensures r == (if a > b { a } else { b }) { unimplemented!() }
#[verifier::external_body] pub fn in_get(w: &World, c: Cx, i: usize) -> (r: T) requires w.v().ins.contains_key(c), i < w.v().ins[c].len() ensures r.tv() == w.v().ins[c][i as int] { unimplemented!() }
/// a contribution: accepted only by a tensor that requires a gradient, and only in its own shape
#[verifier::external_body] pub fn add_grad(w: &mut World, t: T, g: T)
    requires t.tv().rg, g.tv().def, g.tv().sh == t.tv().sh
    ensures final(w).v() == (St { got: old(w).v().got.insert(t.tv().slot, old(w).v().got[t.tv().slot].push(g.tv())), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn cx_pop(w: &mut World, c: Cx) -> (r: IV) requires old(w).v().data.contains_key(c), old(w).v().data[c].len() > 0
    ensures r.iv() == old(w).v().data[c][0], final(w).v() == (St { data: old(w).v().data.insert(c, old(w).v().data[c].skip(1)), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn cx_push(w: &mut World, c: Cx, x: IV) requires old(w).v().data.contains_key(c)
    ensures final(w).v() == (St { data: old(w).v().data.insert(c, old(w).v().data[c].push(x.iv())), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn sd_front(w: &World, c: Sd) -> (r: IV) requires w.v().data.contains_key(c), w.v().data[c].len() > 0 ensures r.iv() == w.v().data[c][0] { unimplemented!() }
/// reading a saved value under the wrong type throws
#[verifier::external_body] pub fn iv_f(x: IV) -> (r: F) requires x.iv() is Fl ensures r.r() == x.iv()->Fl_0 { unimplemented!() }
#[verifier::external_body] pub fn iv_b(x: IV) -> (r: bool) requires x.iv() is B ensures r == x.iv()->B_0 { unimplemented!() }
#[verifier::external_body] pub fn iv_i(x: IV) -> (r: i64) requires x.iv() is I, i64::MIN <= x.iv()->I_0 <= i64::MAX ensures r == x.iv()->I_0 { unimplemented!() }
#[verifier::external_body] pub fn iv_t(x: IV) -> (r: T) requires x.iv() is Ts ensures r.tv() == x.iv()->Ts_0 { unimplemented!() }
#[verifier::external_body] pub fn iv_d(x: IV) -> (r: Dm) requires x.iv() is D2 ensures r == x.iv()->D2_0 { unimplemented!() }
#[verifier::external_body] pub fn iv_e(x: IV) -> (r: Lr) requires x.iv() is E ensures r == x.iv()->E_0 { unimplemented!() }
#[verifier::external_body] pub fn iv_l(x: IV) -> (r: Vec<IV>) requires x.iv() is L, x.iv()->L_0.len() <= usize::MAX ensures r@.len() == x.iv()->L_0.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).iv() == IVal::I(x.iv()->L_0[i]) { unimplemented!() }
#[verifier::external_body] pub fn iv_from_f(x: F) -> (r: IV) ensures r.iv() == IVal::Fl(x.r()) { unimplemented!() }
#[verifier::external_body] pub fn iv_from_b(x: bool) -> (r: IV) ensures r.iv() == IVal::B(x) { unimplemented!() }
#[verifier::external_body] pub fn iv_from_i(x: i64) -> (r: IV) ensures r.iv() == IVal::I(x as int) { unimplemented!() }
#[verifier::external_body] pub fn iv_from_t(x: T) -> (r: IV) ensures r.iv() == IVal::Ts(x.tv()) { unimplemented!() }
#[verifier::external_body] pub fn iv_from_d(x: Dm) -> (r: IV) ensures r.iv() == IVal::D2(x) { unimplemented!() }
#[verifier::external_body] pub fn iv_from_e(x: Lr) -> (r: IV) ensures r.iv() == IVal::E(x) { unimplemented!() }
pub open spec fn lints(s: Seq<IV>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].iv()->I_0) }
#[verifier::external_body] pub fn iv_from_l(x: Vec<IV>) -> (r: IV) requires forall|i: int| 0 <= i < x@.len() ==> (#[trigger] x@[i]).iv() is I ensures r.iv() == IVal::L(lints(x@)) { unimplemented!() }
#[verifier::external_body] pub fn il_push(v: &mut Vec<IV>, x: IV) ensures final(v)@ == old(v)@.push(x) { unimplemented!() }
#[verifier::external_body] pub fn dm_new(h: i64, w: i64) -> (r: Dm) ensures r == (Dm { h, w }) { unimplemented!() }
#[verifier::external_body] pub fn trap() requires false { unimplemented!() }
/// a number given where a tensor operation takes a scalar
pub trait Num { spec fn rv(&self) -> real; }
impl Num for i32 { open spec fn rv(&self) -> real { *self as int as real } }
impl Num for i64 { open spec fn rv(&self) -> real { *self as int as real } }
impl Num for F { open spec fn rv(&self) -> real { self.r() } }
impl Num for T { open spec fn rv(&self) -> real { self.tv().v } }
/// tensor operations on plain operands (nothing summed away yet)
#[verifier::external_body] pub fn t_scalar(x: F) -> (r: T) ensures tok(r.tv()), !r.tv().rg, r.tv().sh == Seq::<int>::empty(), r.tv().v == x.r(), r.tv().red == ISet::<int>::empty() { unimplemented!() }
#[verifier::external_body] pub fn t_f(a: T) -> (r: F) ensures r.r() == a.tv().v { unimplemented!() }
#[verifier::external_body] pub fn t_ones(a: T) -> (r: T) requires tok(a.tv()) ensures tok(r.tv()), r.tv().sh == a.tv().sh, r.tv().v == 1real { unimplemented!() }
pub open spec fn ew(a: Tv, b: Tv, r: Tv, v: real) -> bool { r.def && r.sh == bsh(a.sh, b.sh) && r.red == ISet::<int>::empty() && r.v == v && tok(r) }
pub open spec fn ewok(a: Tv, b: Tv) -> bool { tok(a) && tok(b) && bcok(a.sh, b.sh) }
#[verifier::external_body] pub fn t_mul(a: T, b: T) -> (r: T) requires ewok(a.tv(), b.tv()) ensures ew(a.tv(), b.tv(), r.tv(), m(a.tv().v, b.tv().v)) { unimplemented!() }
#[verifier::external_body] pub fn t_div(a: T, b: T) -> (r: T) requires ewok(a.tv(), b.tv()) ensures ew(a.tv(), b.tv(), r.tv(), q(a.tv().v, b.tv().v)) { unimplemented!() }
#[verifier::external_body] pub fn t_lt(a: T, b: T) -> (r: T) requires ewok(a.tv(), b.tv()) ensures ew(a.tv(), b.tv(), r.tv(), if a.tv().v < b.tv().v { 1real } else { 0real }) { unimplemented!() }
pub open spec fn ew3ok(g: Tv, a: Tv, b: Tv) -> bool { tok(g) && tok(a) && tok(b) && bcok(a.sh, b.sh) && bcto(bsh(a.sh, b.sh), g.sh) }
/// the registered kernels of these apply the scalar functions under contract below, element by element
#[verifier::external_body] pub fn t_divb2(g: T, a: T, b: T) -> (r: T) requires ew3ok(g.tv(), a.tv(), b.tv()) ensures ew(g.tv(), g.tv(), r.tv(), d_div2(a.tv().v, b.tv().v, g.tv().v)), r.tv().sh == g.tv().sh { unimplemented!() }
#[verifier::external_body] pub fn t_powb1(g: T, a: T, b: T) -> (r: T) requires ew3ok(g.tv(), a.tv(), b.tv()) ensures ew(g.tv(), g.tv(), r.tv(), d_pow1(a.tv().v, b.tv().v, g.tv().v)), r.tv().sh == g.tv().sh { unimplemented!() }
#[verifier::external_body] pub fn t_powb2(g: T, a: T, b: T) -> (r: T) requires ew3ok(g.tv(), a.tv(), b.tv()) ensures ew(g.tv(), g.tv(), r.tv(), d_pow2(a.tv().v, b.tv().v, g.tv().v)), r.tv().sh == g.tv().sh { unimplemented!() }
#[verifier::external_body] pub fn t_sinb(g: T, a: T) -> (r: T) requires tok(g.tv()), tok(a.tv()), g.tv().sh == a.tv().sh ensures tok(r.tv()), r.tv().sh == a.tv().sh, r.tv().v == d_sin(a.tv().v, g.tv().v) { unimplemented!() }
#[verifier::external_body] pub fn t_cosb(g: T, a: T) -> (r: T) requires tok(g.tv()), tok(a.tv()), g.tv().sh == a.tv().sh ensures tok(r.tv()), r.tv().sh == a.tv().sh, r.tv().v == d_cos(a.tv().v, g.tv().v) { unimplemented!() }
#[verifier::external_body] pub fn t_fillmask<N: Num>(a: T, k: T, x: N) -> (r: T) requires tok(a.tv()), tok(k.tv()), a.tv().sh == k.tv().sh ensures tok(r.tv()), r.tv().sh == a.tv().sh, r.tv().v == (if k.tv().v != 0real { x.rv() } else { a.tv().v }) { unimplemented!() }
/// dropout with a given mask: zero where nothing is kept at all
#[verifier::external_body] pub fn t_dropmask(a: T, k: T, p: F) -> (r: T) requires ewok(a.tv(), k.tv()) ensures ew(a.tv(), k.tv(), r.tv(), d_drop(a.tv().v, k.tv().v, p.r())) { unimplemented!() }
pub open spec fn dset(d: Seq<i64>) -> ISet<int> { ISet::new(|i: int| exists|k: int| 0 <= k < d.len() && #[trigger] d[k] == i) }
#[verifier::external_body] pub fn t_sumdims(a: T, d: &Vec<i64>, keep: bool) -> (r: T)
    requires tok(a.tv()), forall|k: int| 0 <= k < d@.len() ==> 0 <= #[trigger] d@[k] < a.tv().sh.len()
    ensures keep ==> r.tv().def && r.tv().sh == Seq::new(a.tv().sh.len(), |i: int| if dset(d@).contains(i) { 1 } else { a.tv().sh[i] }) && r.tv().red == dset(d@) && r.tv().v == a.tv().v { unimplemented!() }
/// a target with no negative entry must hold as many elements; adding or dropping leading ones keeps every element in its place
#[verifier::external_body] pub fn t_reshape(a: T, s: &Vec<i64>) -> (r: T)
    requires a.tv().def, rs_ok(a.tv().sh, ints(s@))
    ensures rsh(a.tv(), r.tv(), ints(s@)), nonneg(ints(s@)) ==> r.tv().sh == ints(s@), !nonneg(ints(s@)) ==> r.tv().sh == rshape(a.tv().sh, ints(s@)) { unimplemented!() }
pub open spec fn rsh(a: Tv, r: Tv, s: Seq<int>) -> bool { r.def && r.x == xreshape(a.x, s) && (lead1(a.sh, s) ==> r.v == a.v && r.red == a.red) }
#[verifier::external_body] pub fn t_reshape_in(a: &mut T, s: &Vec<i64>)
    requires old(a).tv().def, rs_ok(old(a).tv().sh, ints(s@))
    ensures rsh(old(a).tv(), final(a).tv(), ints(s@)), nonneg(ints(s@)) ==> final(a).tv().sh == ints(s@), !nonneg(ints(s@)) ==> final(a).tv().sh == rshape(old(a).tv().sh, ints(s@)) { unimplemented!() }
#[verifier::external_body] pub fn t_permute(a: T, d: &Vec<i64>) -> (r: T) requires a.tv().def ensures r.tv().def, r.tv().x == xperm(a.tv().x, ints(d@)), r.tv().sh == pshape(a.tv().sh, ints(d@)) { unimplemented!() }
#[verifier::external_body] pub fn t_permall(a: T) -> (r: T) requires a.tv().def ensures r.tv().def, r.tv().x == xpermall(a.tv().x), r.tv().sh == a.tv().sh.reverse() { unimplemented!() }
#[verifier::external_body] pub fn t_softmax(w: &World, a: T, d: i64) -> (r: T) requires a.tv().def ensures r.tv().def, r.tv().sh == a.tv().sh, r.tv().x == xsm(a.tv().x, d as int) { unimplemented!() }
#[verifier::external_body] pub fn t_logsoftmax(w: &World, a: T, d: i64) -> (r: T) requires a.tv().def ensures r.tv().def, r.tv().sh == a.tv().sh, r.tv().x == xlsm(a.tv().x, d as int) { unimplemented!() }
#[verifier::external_body] pub fn t_smb(g: T, o: T, d: i64) -> (r: T) requires g.tv().def, o.tv().def, g.tv().sh == o.tv().sh ensures r.tv().def, r.tv().sh == o.tv().sh, r.tv().x == xsmb(g.tv().x, o.tv().x, d as int) { unimplemented!() }
#[verifier::external_body] pub fn t_lsmb(g: T, o: T, d: i64) -> (r: T) requires g.tv().def, o.tv().def, g.tv().sh == o.tv().sh ensures r.tv().def, r.tv().sh == o.tv().sh, r.tv().x == xlsmb(g.tv().x, o.tv().x, d as int) { unimplemented!() }
#[verifier::external_body] pub fn t_mse(w: &World, a: T, b: T, r: Lr) -> (o: T) { unimplemented!() }
#[verifier::external_body] pub fn t_nll(w: &World, a: T, b: T, r: Lr) -> (o: T) { unimplemented!() }
#[verifier::external_body] pub fn t_subs(a: T, b: T, alpha: T) -> (r: T) requires ewok(a.tv(), b.tv()) ensures ew(a.tv(), b.tv(), r.tv(), a.tv().v - m(alpha.tv().v, b.tv().v)) { unimplemented!() }
#[verifier::external_body] pub fn t_bern(w: &World, s: &Vec<i64>, p: F) -> (r: T) ensures drawn(r.tv(), p.r()), tok(r.tv()), r.tv().sh == ints(s@) { unimplemented!() }
#[verifier::external_body] pub fn t_mseb(g: T, a: T, b: T, r: Lr) -> (o: T) requires tok(g.tv()), ewok(a.tv(), b.tv()), bcto(g.tv().sh, bsh(a.tv().sh, b.tv().sh)) ensures tok(o.tv()), o.tv().sh == bsh(a.tv().sh, b.tv().sh), o.tv().v == d_mse(a.tv().v, b.tv().v, g.tv().v, r, prod(bsh(a.tv().sh, b.tv().sh))) { unimplemented!() }
#[verifier::external_body] pub fn t_nllb(g: T, a: T, b: T, r: Lr) -> (o: T) requires a.tv().def ensures tok(o.tv()), o.tv().sh == a.tv().sh, o.tv().x == xnllb(g.tv().x, a.tv().x, b.tv().x, r) { unimplemented!() }
#[verifier::external_body] pub fn t_mm(a: T, b: T, ta: bool, tb: bool) -> (r: T) requires a.tv().def, b.tv().def, mmok(a.tv().sh, b.tv().sh, ta, tb) ensures r.tv().def, r.tv().x == xmm(a.tv().x, b.tv().x, ta, tb), r.tv().sh == mshape(a.tv().sh, b.tv().sh, ta, tb) { unimplemented!() }
/// every entry an independent draw that is one with probability p, else zero
pub uninterp spec fn drawn(t: Tv, p: real) -> bool;
pub open spec fn sshape(a: Seq<int>, d: int, k: bool) -> Seq<int> { if k { a.update(d, 1) } else { a.remove(d) } }
pub uninterp spec fn mshape_b(a: Seq<int>, b: Seq<int>, ta: bool, tb: bool) -> Seq<int>;
pub open spec fn rw(a: Seq<int>, t: bool) -> int { if t { a[1] } else { a[0] } }
pub open spec fn cl(a: Seq<int>, t: bool) -> int { if t { a[0] } else { a[1] } }
pub open spec fn mshape(a: Seq<int>, b: Seq<int>, ta: bool, tb: bool) -> Seq<int> { if a.len() == 2 && b.len() == 2 { seq![rw(a, ta), cl(b, tb)] } else { mshape_b(a, b, ta, tb) } }
/// the inner extents agree
pub open spec fn mmok(a: Seq<int>, b: Seq<int>, ta: bool, tb: bool) -> bool { a.len() == 2 && b.len() == 2 ==> cl(a, ta) == rw(b, tb) }
#[verifier::external_body] pub fn t_sumdim(a: T, d: i64, keep: bool) -> (r: T) requires a.tv().def, 0 <= d < a.tv().sh.len() ensures r.tv().def, r.tv().x == xsum1(a.tv().x, d as int, keep), r.tv().sh == sshape(a.tv().sh, d as int, keep) { unimplemented!() }
/// one extent of the output of a sliding window
pub open spec fn oext(h: int, k: int, p: int, s: int) -> int { (h - k + 2 * p) / s + 1 }
pub open spec fn BIG() -> int { 0x10_0000 }
/// an image can be cut into windows
pub open spec fn winok(sh: Seq<int>, k: Dm, s: Dm, p: Dm) -> bool {
    let d = sh.len() - 3;
    0 <= d <= 1 && (forall|i: int| 0 <= i < sh.len() ==> 1 <= #[trigger] sh[i] <= BIG()) && 1 <= s.h <= BIG() && 1 <= s.w <= BIG() && 0 <= p.h <= BIG() && 0 <= p.w <= BIG()
    && 1 <= k.h <= sh[d + 1] + 2 * p.h && 1 <= k.w <= sh[d + 2] + 2 * p.w && k.h <= BIG() && k.w <= BIG()
}
pub open spec fn wn(sh: Seq<int>) -> int { if sh.len() == 4 { sh[0] } else { 1 } }
pub open spec fn wc(sh: Seq<int>) -> int { sh[sh.len() - 3] }
pub open spec fn woh(sh: Seq<int>, k: Dm, s: Dm, p: Dm) -> int { oext(sh[sh.len() - 2], k.h as int, p.h as int, s.h as int) }
pub open spec fn wow(sh: Seq<int>, k: Dm, s: Dm, p: Dm) -> int { oext(sh[sh.len() - 1], k.w as int, p.w as int, s.w as int) }
/// the windows of an image, one per row
pub open spec fn colsh(sh: Seq<int>, k: Dm, s: Dm, p: Dm) -> Seq<int> { seq![wn(sh) * (woh(sh, k, s, p) * wow(sh, k, s, p)), wc(sh) * (k.h * k.w)] }
#[verifier::external_body] pub fn t_im2col(a: T, k: Dm, s: Dm, p: Dm) -> (r: T) requires tok(a.tv()), winok(a.tv().sh, k, s, p) ensures r.tv().def, r.tv().sh == colsh(a.tv().sh, k, s, p), r.tv().x == xcol(a.tv().x, k, s, p) { unimplemented!() }
#[verifier::external_body] pub fn t_col2im(a: T, sh: &Vec<i64>, k: Dm, s: Dm, p: Dm) -> (r: T) requires a.tv().def, winok(ints(sh@), k, s, p), a.tv().sh == colsh(ints(sh@), k, s, p) ensures r.tv().def, r.tv().sh == ints(sh@), r.tv().x == xcolim(a.tv().x, ints(sh@), k, s, p) { unimplemented!() }
#[verifier::external_body] pub fn t_add_in<N: Num>(a: &mut T, b: T, alpha: N) requires old(a).tv().def, b.tv().def, bcto(b.tv().sh, old(a).tv().sh), alpha.rv() == 1real ensures final(a).tv().def, final(a).tv().sh == old(a).tv().sh, final(a).tv().x == xadd(old(a).tv().x, b.tv().x) { unimplemented!() }
/// the upstream gradient of a convolution, one row per output position
pub open spec fn xposrows(g: Tv, oc: int) -> int { xreshape(xperm(xreshape(g.x, seq![g.sh[0], oc, -1]), seq![0, 2, 1]), seq![-1, oc]) }
pub open spec fn convok(i: Seq<int>, wt: Seq<int>, s: Dm, p: Dm) -> bool { i.len() == 4 && wt.len() == 4 && 1 <= wt[0] <= BIG() && wt[1] == i[1] && 1 <= wt[2] <= BIG() && 1 <= wt[3] <= BIG() && winok(i, Dm { h: wt[2] as i64, w: wt[3] as i64 }, s, p) }
pub open spec fn kdm(wt: Seq<int>) -> Dm { Dm { h: wt[2] as i64, w: wt[3] as i64 } }
pub proof fn mul_pos(a: int, b: int) requires a >= 1, b >= 1 ensures a * b >= 1 { assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; }
pub proof fn div_ex(a: int, b: int) requires b >= 1, a >= 0 ensures (a * b) / b == a, (a * b) % b == 0, (b * a) / b == a, (b * a) % b == 0 {
    assert(a * b == b * a) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * b, b, a, 0);
}
pub proof fn lemma_oext(h: int, k: int, p: int, s: int) requires 1 <= h <= BIG(), 1 <= k <= h + 2 * p, 0 <= p <= BIG(), s >= 1 ensures 1 <= oext(h, k, p, s) <= 4 * BIG() {
    let x = h - k + 2 * p; assert(0 <= x / s <= x) by (nonlinear_arith) requires 0 <= x, s >= 1;
}
/// the shapes a convolution goes through: image [n, c, ..], kernel [oc, c, kh, kw], q output positions per image
pub proof fn lemma_conv(n: int, oc: int, oh: int, ow: int, c: int, kh: int, kw: int)
    requires n >= 1, oc >= 1, oh >= 1, ow >= 1, c >= 1, kh >= 1, kw >= 1
    ensures rs_ok(seq![n, oc, oh, ow], seq![n, oc, -1int]), rshape(seq![n, oc, oh, ow], seq![n, oc, -1int]) == seq![n, oc, oh * ow],
        pshape(seq![n, oc, oh * ow], seq![0int, 2, 1]) == seq![n, oh * ow, oc], pshape(seq![n, oh * ow, oc], seq![0int, 2, 1]) == seq![n, oc, oh * ow],
        rs_ok(seq![n, oh * ow, oc], seq![-1int, oc]), rshape(seq![n, oh * ow, oc], seq![-1int, oc]) == seq![n * (oh * ow), oc],
        rs_ok(seq![oc, c, kh, kw], seq![oc, -1int]), rshape(seq![oc, c, kh, kw], seq![oc, -1int]) == seq![oc, c * (kh * kw)],
        prod(seq![oc, c * (kh * kw)]) == prod(seq![oc, c, kh, kw]),
        prod(seq![n * (oh * ow), oc]) == prod(seq![n, oh * ow, oc]), prod(seq![n, oc, oh * ow]) == prod(seq![n, oc, oh, ow]),
        seq![c * (kh * kw), oc].reverse() == seq![oc, c * (kh * kw)], seq![n * (oh * ow), oc].remove(0) == seq![oc],
        nonneg(seq![n, oc, oh, ow]) || true
{
    prod4(n, oc, oh, ow); prod4(oc, c, kh, kw); prod2(oc, c * (kh * kw)); prod2(n * (oh * ow), oc); prod3(n, oh * ow, oc); prod3(n, oc, oh * ow);
    prod3(n, oc, 1); prod2(1, oc); prod2(oc, 1);
    mul_pos(n, oc); mul_pos(oh, ow); mul_pos(n, oh * ow); mul_pos(kh, kw); mul_pos(c, kh * kw);
    assert(known(seq![n, oc, -1int]) =~= seq![n, oc, 1int]); assert(known(seq![-1int, oc]) =~= seq![1int, oc]); assert(known(seq![oc, -1int]) =~= seq![oc, 1int]);
    assert(!nonneg(seq![n, oc, -1int])) by { assert(seq![n, oc, -1int][2] == -1); } assert(!nonneg(seq![-1int, oc])) by { assert(seq![-1int, oc][0] == -1); } assert(!nonneg(seq![oc, -1int])) by { assert(seq![oc, -1int][1] == -1); }
    assert(((n * oc) * oh) * ow == (oh * ow) * (n * oc)) by (nonlinear_arith); assert((n * oc) * (oh * ow) == (oh * ow) * (n * oc)) by (nonlinear_arith);
    assert(((oc * c) * kh) * kw == (c * (kh * kw)) * oc) by (nonlinear_arith); assert(oc * (c * (kh * kw)) == (c * (kh * kw)) * oc) by (nonlinear_arith);
    div_ex(oh * ow, n * oc); div_ex(n * (oh * ow), oc); div_ex(c * (kh * kw), oc);
    assert((n * oc) * 1 == n * oc); assert(1 * oc == oc);
    assert(rshape(seq![n, oc, oh, ow], seq![n, oc, -1int]) =~= seq![n, oc, oh * ow]); assert(rshape(seq![n, oh * ow, oc], seq![-1int, oc]) =~= seq![n * (oh * ow), oc]); assert(rshape(seq![oc, c, kh, kw], seq![oc, -1int]) =~= seq![oc, c * (kh * kw)]);
    assert(pshape(seq![n, oc, oh * ow], seq![0int, 2, 1]) =~= seq![n, oh * ow, oc]); assert(pshape(seq![n, oh * ow, oc], seq![0int, 2, 1]) =~= seq![n, oc, oh * ow]);
    assert(seq![c * (kh * kw), oc].reverse() =~= seq![oc, c * (kh * kw)]); assert(seq![n * (oh * ow), oc].remove(0) =~= seq![oc]);
}
/// the textbook derivatives, each times the upstream gradient g
pub open spec fn d_sin(a: real, g: real) -> real { m(g, rcos(a)) }
pub open spec fn d_cos(a: real, g: real) -> real { m(g, -rsin(a)) }
pub open spec fn d_div1(a: real, b: real, g: real) -> real { q(g, b) }
pub open spec fn d_div2(a: real, b: real, g: real) -> real { m(g, -m(a, inv(m(b, b)))) }
pub open spec fn d_pow1(a: real, b: real, g: real) -> real { m(g, m(b, rpow(a, b - 1real))) }
pub open spec fn d_pow2(a: real, b: real, g: real) -> real { m(g, m(rpow(a, b), rlog(a))) }
pub open spec fn d_relu(a: real, g: real) -> real { if a > 0real { g } else { 0real } }
pub open spec fn d_drop(a: real, k: real, p: real) -> real { if p > 0real { q(m(a, k), p) } else { 0real } }
pub open spec fn d_mse(a: real, b: real, g: real, r: Lr, n: int) -> real { if r == Lr::MEAN { q(m(g, m(2real, a - b)), n as real) } else { m(g, m(2real, a - b)) } }
/// what softmax and logSoftmax save: the dimension, then the output
pub open spec fn smsaved(d: i64, o: Tv) -> Seq<IVal> { seq![IVal::I(d as int), IVal::Ts(o)] }
/// permute saves its axes, counted from the front
pub open spec fn axes(d: Seq<i64>, n: int) -> Seq<int> { Seq::new(d.len(), |i: int| if d[i] < 0 { d[i] + n } else { d[i] as int }) }
pub open spec fn is_perm(p: Seq<int>) -> bool { (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]) }
/// one row per leading position
pub open spec fn rowsh(s: Seq<int>) -> Seq<int> { seq![-1int, s.last()] }
pub open spec fn xrows(t: Tv) -> int { xreshape(t.x, rowsh(t.sh)) }
/// the shapes of a linear layer's operands agree
pub open spec fn linshapes(i: Seq<int>, wt: Seq<int>, b: Seq<int>, g: Seq<int>) -> bool { mshape(g, wt, false, false) == i && mshape(rshape(g, rowsh(g)), rshape(i, rowsh(i)), true, false) == wt && sshape(rshape(g, rowsh(g)), 0, false) == b }
/// dropout saves whether it was active and, if it was, the probability and the mask
pub open spec fn dropsaved(d: Seq<IVal>) -> Seq<IVal> { if d.len() == 3 { seq![IVal::B(true), IVal::Fl(d[1]->Fl_0), IVal::Ts(d[2]->Ts_0)] } else { seq![IVal::B(false)] } }
/// what a convolution saves: stride, padding and the windows
pub open spec fn convsaved(d: Seq<IVal>, s: Dm, p: Dm, col: Tv) -> Seq<IVal> { d.push(IVal::D2(s)).push(IVal::D2(p)).push(IVal::Ts(col)) }
/// the recorded inputs of a context with k operands
pub open spec fn recorded(s: St, c: Cx, k: int) -> bool { c != 0 && s.ins.contains_key(c) && s.data.contains_key(c) && s.ins[c].len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s.ins[c][i]).slot == i && s.got.contains_key(i) && (s.ins[c][i].def ==> tok(s.ins[c][i])) && (s.ins[c][i].rg ==> s.ins[c][i].def) }
pub open spec fn inp(w: &World, c: Cx, i: int) -> Tv { w.v().ins[c][i] }
/// input i received nothing if it does not require a gradient, else exactly one contribution
pub open spec fn one(a: &World, b: &World, c: Cx, i: int) -> bool { if inp(a, c, i).rg { b.v().got[i] == a.v().got[i].push(gr(b, i)) && gr(b, i).def && gr(b, i).sh == inp(a, c, i).sh } else { b.v().got[i] == a.v().got[i] } }
pub open spec fn gr(b: &World, i: int) -> Tv { b.v().got[i].last() }
pub open spec fn rest(a: &World, b: &World, k: int) -> bool { b.v().ins == a.v().ins && forall|i: int| i < 0 || i >= k ==> #[trigger] b.v().got[i] == a.v().got[i] }
/// an elementwise rule: the contribution is v at every position of the broadcast space, summed over what was broadcast
pub open spec fn ewgrad(a: &World, b: &World, c: Cx, i: int, g: Tv, v: real) -> bool { one(a, b, c, i) && (inp(a, c, i).rg ==> gr(b, i).v == v && gr(b, i).red == redset(inp(a, c, i).sh, g.sh)) }
pub open spec fn bin(w: &World, c: Cx, g: Tv) -> bool { recorded(w.v(), c, 2) && inp(w, c, 0).def && inp(w, c, 1).def && bcok(inp(w, c, 0).sh, inp(w, c, 1).sh) && tok(g) && g.sh == bsh(inp(w, c, 0).sh, inp(w, c, 1).sh) }
pub open spec fn una(w: &World, c: Cx) -> bool { recorded(w.v(), c, 1) && inp(w, c, 0).def }
@fn reduceGrad = tinytorch::function::reduceGrad
@w const
@req
tok(self_.tv()), tok(grad.tv()), bcto(self_.tv().sh, grad.tv().sh),
@ens
res.tv().def, res.tv().sh == self_.tv().sh, res.tv().v == grad.tv().v, res.tv().red == redset(self_.tv().sh, grad.tv().sh), self_.tv().sh == grad.tv().sh ==> res.tv() == grad.tv(),
@at entry
let ghost ss = self_.tv().sh; let ghost gg = grad.tv().sh; let ghost n = gg.len() as int;
reveal(bcto); reveal(lead1);
assert forall|i: int| 0 <= i < n implies #[trigger] padsh(ss, n, i) == 1 || padsh(ss, n, i) == gg[i] by {}
@loop 0
0 <= i, ndim == n, offsetSelf == n - ss.len(), offsetGrad == 0, i <= n, n < 0x4000_0000,
forall|k: int| 0 <= k < dims@.len() ==> 0 <= #[trigger] dims@[k] < i && redset(ss, gg).contains(dims@[k] as int),
forall|j: int| 0 <= j < i && redset(ss, gg).contains(j) ==> exists|k: int| 0 <= k < dims@.len() && #[trigger] dims@[k] == j,
@at loop0.begin
let ghost dold = dims@;
@at loop0.end
assert forall|j: int| 0 <= j < i + 1 && redset(ss, gg).contains(j) implies exists|k: int| 0 <= k < dims@.len() && #[trigger] dims@[k] == j by {
    if j < i { let k = choose|k: int| 0 <= k < dold.len() && #[trigger] dold[k] == j; assert(dims@[k] == j); } else { assert(dims@.last() == j); }
}
@at loop0.after
assert(dset(dims@) =~= redset(ss, gg));
assert(dims@.len() == 0 ==> redset(ss, gg) =~= ISet::<int>::empty());
assert(dims@.len() == 0 ==> lead1(gg, ss)) by { if dims@.len() == 0 { assert forall|i: int| 0 <= i < n implies #[trigger] gg[i] == padsh(ss, n, i) by { assert(!redset(ss, gg).contains(i)); } } }
let ghost sm = Seq::new(gg.len(), |i: int| if dset(dims@).contains(i) { 1 } else { gg[i] });
assert(lead1(sm, ss)) by { assert forall|i: int| 0 <= i < n implies #[trigger] sm[i] == padsh(ss, n, i) by { assert(redset(ss, gg).contains(i) || !redset(ss, gg).contains(i)); } }
@fn sin_b = tinytorch::function::FuncSin::backward
@req
una(old(w), ctx), tok(grad.tv()), grad.tv().sh == inp(old(w), ctx, 0).sh,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).v == d_sin(inp(old(w), ctx, 0).v, grad.tv().v) && gr(final(w), 0).red == ISet::<int>::empty(),
@fn cos_b = tinytorch::function::FuncCos::backward
@req
una(old(w), ctx), tok(grad.tv()), grad.tv().sh == inp(old(w), ctx, 0).sh,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).v == d_cos(inp(old(w), ctx, 0).v, grad.tv().v) && gr(final(w), 0).red == ISet::<int>::empty(),
@fn add_b = tinytorch::function::FuncAdd::backward
@req
bin(old(w), ctx, grad.tv()),
@ens
rest(old(w), final(w), 2), ewgrad(old(w), final(w), ctx, 0, grad.tv(), grad.tv().v), ewgrad(old(w), final(w), ctx, 1, grad.tv(), grad.tv().v),
@fn sub_f = tinytorch::function::FuncSub::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx), ewok(self_.tv(), other.tv()),
@ens
ew(self_.tv(), other.tv(), res.tv(), self_.tv().v - m(alpha.tv().v, other.tv().v)),
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::Fl(alpha.tv().v)),
@fn sub_b = tinytorch::function::FuncSub::backward
@req
bin(old(w), ctx, grad.tv()),
old(w).v().data[ctx].len() > 0, old(w).v().data[ctx][0] is Fl,
@ens
rest(old(w), final(w), 2), ewgrad(old(w), final(w), ctx, 0, grad.tv(), grad.tv().v), ewgrad(old(w), final(w), ctx, 1, grad.tv(), -m(old(w).v().data[ctx][0]->Fl_0, grad.tv().v)),
@fn mul_b = tinytorch::function::FuncMul::backward
@req
bin(old(w), ctx, grad.tv()),
@ens
rest(old(w), final(w), 2), ewgrad(old(w), final(w), ctx, 0, grad.tv(), m(grad.tv().v, inp(old(w), ctx, 1).v)), ewgrad(old(w), final(w), ctx, 1, grad.tv(), m(grad.tv().v, inp(old(w), ctx, 0).v)),
@fn div_b = tinytorch::function::FuncDiv::backward
@req
bin(old(w), ctx, grad.tv()),
@ens
rest(old(w), final(w), 2), ewgrad(old(w), final(w), ctx, 0, grad.tv(), d_div1(inp(old(w), ctx, 0).v, inp(old(w), ctx, 1).v, grad.tv().v)), ewgrad(old(w), final(w), ctx, 1, grad.tv(), d_div2(inp(old(w), ctx, 0).v, inp(old(w), ctx, 1).v, grad.tv().v)),
@fn pow_b = tinytorch::function::FuncPow::backward
@req
bin(old(w), ctx, grad.tv()),
@ens
rest(old(w), final(w), 2), ewgrad(old(w), final(w), ctx, 0, grad.tv(), d_pow1(inp(old(w), ctx, 0).v, inp(old(w), ctx, 1).v, grad.tv().v)), ewgrad(old(w), final(w), ctx, 1, grad.tv(), d_pow2(inp(old(w), ctx, 0).v, inp(old(w), ctx, 1).v, grad.tv().v)),
@fn relu_b = tinytorch::function::FuncRelu::backward
@req
una(old(w), ctx), tok(grad.tv()), grad.tv().sh == inp(old(w), ctx, 0).sh,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg && inp(old(w), ctx, 0).v != 0real ==> gr(final(w), 0).v == d_relu(inp(old(w), ctx, 0).v, grad.tv().v) && gr(final(w), 0).red == ISet::<int>::empty(),
@fn softmax_f = tinytorch::function::FuncSoftmax::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx), tok(self_.tv()),
@ens
res.tv().def, res.tv().sh == self_.tv().sh, res.tv().x == xsm(self_.tv().x, dim as int),
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::I(dim as int)).push(IVal::Ts(res.tv())),
@fn softmax_b = tinytorch::function::FuncSoftmax::backward
@req
una(old(w), ctx), grad.tv().def, grad.tv().sh == inp(old(w), ctx, 0).sh,
exists|d: i64, o: Tv| old(w).v().data[ctx] == #[trigger] smsaved(d, o) && o.def && o.sh == inp(old(w), ctx, 0).sh,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xsmb(grad.tv().x, old(w).v().data[ctx][1]->Ts_0.x, old(w).v().data[ctx][0]->I_0),
@fn lsoftmax_f = tinytorch::function::FuncLogSoftmax::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx), tok(self_.tv()),
@ens
res.tv().def, res.tv().sh == self_.tv().sh, res.tv().x == xlsm(self_.tv().x, dim as int),
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::I(dim as int)).push(IVal::Ts(res.tv())),
@fn lsoftmax_b = tinytorch::function::FuncLogSoftmax::backward
@req
una(old(w), ctx), grad.tv().def, grad.tv().sh == inp(old(w), ctx, 0).sh,
exists|d: i64, o: Tv| old(w).v().data[ctx] == #[trigger] smsaved(d, o) && o.def && o.sh == inp(old(w), ctx, 0).sh,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xlsmb(grad.tv().x, old(w).v().data[ctx][1]->Ts_0.x, old(w).v().data[ctx][0]->I_0),
@fn sum_b = tinytorch::function::FuncSum::backward
@req
una(old(w), ctx), tok(grad.tv()), grad.tv().sh.len() == 0,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).v == grad.tv().v && gr(final(w), 0).red == ISet::<int>::empty(),
@at entry
assert(bcto(grad.tv().sh, inp(w, ctx, 0).sh)) by { reveal(bcto); }
@fn reshape_b = tinytorch::function::FuncReshape::backward
@req
una(old(w), ctx), tok(grad.tv()), prod(grad.tv().sh) == prod(inp(old(w), ctx, 0).sh),
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xreshape(grad.tv().x, inp(old(w), ctx, 0).sh),
@fn view_b = tinytorch::function::FuncView::backward
@req
una(old(w), ctx), tok(grad.tv()), prod(grad.tv().sh) == prod(inp(old(w), ctx, 0).sh),
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xreshape(grad.tv().x, inp(old(w), ctx, 0).sh),
@fn flatten_b = tinytorch::function::FuncFlatten::backward
@req
una(old(w), ctx), tok(grad.tv()), prod(grad.tv().sh) == prod(inp(old(w), ctx, 0).sh),
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xreshape(grad.tv().x, inp(old(w), ctx, 0).sh),
@fn unflatten_b = tinytorch::function::FuncUnflatten::backward
@req
una(old(w), ctx), tok(grad.tv()), prod(grad.tv().sh) == prod(inp(old(w), ctx, 0).sh),
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xreshape(grad.tv().x, inp(old(w), ctx, 0).sh),
@fn squeeze_b = tinytorch::function::FuncSqueeze::backward
@req
una(old(w), ctx), tok(grad.tv()), prod(grad.tv().sh) == prod(inp(old(w), ctx, 0).sh),
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xreshape(grad.tv().x, inp(old(w), ctx, 0).sh),
@fn unsqueeze_b = tinytorch::function::FuncUnsqueeze::backward
@req
una(old(w), ctx), tok(grad.tv()), prod(grad.tv().sh) == prod(inp(old(w), ctx, 0).sh),
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xreshape(grad.tv().x, inp(old(w), ctx, 0).sh),
@fn permute_f = tinytorch::function::FuncPermute::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx), tok(self_.tv()), forall|i: int| 0 <= i < dims@.len() ==> -self_.tv().sh.len() <= #[trigger] dims@[i] < self_.tv().sh.len(),
@ens
res.tv().x == xperm(self_.tv().x, ints(dims@)),
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::L(axes(dims@, self_.tv().sh.len() as int))),
@loop 0
forall|i: int| 0 <= i < saved@.len() ==> (#[trigger] saved@[i]).iv() == IVal::I(axes(dims@, self_.tv().sh.len() as int)[i]), saved@.len() == k_0,
@at loop0.after
assert(lints(saved@) =~= axes(dims@, self_.tv().sh.len() as int));
@fn permute_b = tinytorch::function::FuncPermute::backward
@req
una(old(w), ctx), tok(grad.tv()), old(w).v().data[ctx].len() > 0, old(w).v().data[ctx][0] is L, is_perm(old(w).v().data[ctx][0]->L_0), old(w).v().data[ctx][0]->L_0.len() == inp(old(w), ctx, 0).sh.len(),
forall|d: Seq<int>| inv_perm(old(w).v().data[ctx][0]->L_0, d) ==> #[trigger] pshape(grad.tv().sh, d) == inp(old(w), ctx, 0).sh,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0),
inp(old(w), ctx, 0).rg ==> exists|d: Seq<int>| inv_perm(old(w).v().data[ctx][0]->L_0, d) && gr(final(w), 0).x == #[trigger] xperm(grad.tv().x, d),
@at entry
let ghost p = w.v().data[ctx][0]->L_0;
assert(p.len() <= 0x4000_0000);
@loop 0
i <= saved@.len(), saved@.len() == p.len(), inverse@.len() == p.len(), is_perm(p), p.len() <= 0x4000_0000,
forall|k: int| 0 <= k < saved@.len() ==> (#[trigger] saved@[k]).iv() == IVal::I(p[k]),
forall|k: int| 0 <= k < i ==> inverse@[#[trigger] p[k]] == k,
@dec saved@.len() - i
@at loop0.after
assert(inv_perm(p, ints(inverse@)));
@fn permall_b = tinytorch::function::FuncPermuteAll::backward
@req
una(old(w), ctx), tok(grad.tv()), grad.tv().sh == inp(old(w), ctx, 0).sh.reverse(),
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0), inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xpermall(grad.tv().x),
@at entry
assert(grad.tv().sh.reverse() =~= inp(w, ctx, 0).sh);
@fn mse_f = tinytorch::function::FuncMSELoss::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx),
@ens
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::E(reduction)),
@fn mse_b = tinytorch::function::FuncMSELoss::backward
@req
recorded(old(w).v(), ctx, 2), inp(old(w), ctx, 0).def, inp(old(w), ctx, 1).def, !inp(old(w), ctx, 1).rg, tok(grad.tv()), old(w).v().data[ctx].len() > 0, old(w).v().data[ctx][0] is E,
bcok(inp(old(w), ctx, 0).sh, inp(old(w), ctx, 1).sh), bcto(grad.tv().sh, bsh(inp(old(w), ctx, 0).sh, inp(old(w), ctx, 1).sh)),
@ens
rest(old(w), final(w), 2), one(old(w), final(w), ctx, 0), one(old(w), final(w), ctx, 1),
inp(old(w), ctx, 0).rg ==> gr(final(w), 0).v == d_mse(inp(old(w), ctx, 0).v, inp(old(w), ctx, 1).v, grad.tv().v, old(w).v().data[ctx][0]->E_0, prod(bsh(inp(old(w), ctx, 0).sh, inp(old(w), ctx, 1).sh))) && gr(final(w), 0).red == redset(inp(old(w), ctx, 0).sh, bsh(inp(old(w), ctx, 0).sh, inp(old(w), ctx, 1).sh)),
@fn nll_f = tinytorch::function::FuncNLLLoss::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx),
@ens
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::E(reduction)),
@fn nll_b = tinytorch::function::FuncNLLLoss::backward
@req
recorded(old(w).v(), ctx, 2), inp(old(w), ctx, 0).def, inp(old(w), ctx, 1).def, !inp(old(w), ctx, 1).rg, tok(grad.tv()), old(w).v().data[ctx].len() > 0, old(w).v().data[ctx][0] is E,
@ens
rest(old(w), final(w), 2), one(old(w), final(w), ctx, 0), one(old(w), final(w), ctx, 1),
inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xnllb(grad.tv().x, inp(old(w), ctx, 0).x, inp(old(w), ctx, 1).x, old(w).v().data[ctx][0]->E_0),
@fn linear_b = tinytorch::function::FuncLinear::backward
@req
recorded(old(w).v(), ctx, 3), inp(old(w), ctx, 0).def, inp(old(w), ctx, 1).def, tok(grad.tv()), grad.tv().sh.len() > 0, inp(old(w), ctx, 0).sh.len() > 0,
rs_ok(grad.tv().sh, rowsh(grad.tv().sh)), rs_ok(inp(old(w), ctx, 0).sh, rowsh(inp(old(w), ctx, 0).sh)), mmok(grad.tv().sh, inp(old(w), ctx, 1).sh, false, false), mmok(rshape(grad.tv().sh, rowsh(grad.tv().sh)), rshape(inp(old(w), ctx, 0).sh, rowsh(inp(old(w), ctx, 0).sh)), true, false),
linshapes(inp(old(w), ctx, 0).sh, inp(old(w), ctx, 1).sh, inp(old(w), ctx, 2).sh, grad.tv().sh),
@ens
rest(old(w), final(w), 3), one(old(w), final(w), ctx, 0), one(old(w), final(w), ctx, 1), one(old(w), final(w), ctx, 2),
inp(old(w), ctx, 0).rg ==> gr(final(w), 0).x == xmm(grad.tv().x, inp(old(w), ctx, 1).x, false, false),
inp(old(w), ctx, 1).rg ==> gr(final(w), 1).x == xmm(xrows(grad.tv()), xrows(inp(old(w), ctx, 0)), true, false),
inp(old(w), ctx, 2).rg ==> gr(final(w), 2).x == xsum1(xrows(grad.tv()), 0, false),
@fn dropout_f = tinytorch::function::FuncDropout::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx), tok(input.tv()),
@ens
res.tv().def, res.tv().sh == input.tv().sh, !training ==> res.tv().v == input.tv().v,
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 && !training ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::B(false)),
training ==> exists|k: Tv| #[trigger] tok(k) && drawn(k, 1real - p.r()) && k.sh == input.tv().sh && res.tv().v == d_drop(input.tv().v, k.v, 1real - p.r()) && (ctx != 0 ==> final(w).v().data[ctx] == old(w).v().data[ctx].push(IVal::B(true)).push(IVal::Fl(p.r())).push(IVal::Ts(k))),
@at entry
assert(bcto(input.tv().sh, input.tv().sh)) by { reveal(bcto); }
@fn dropout_b = tinytorch::function::FuncDropout::backward
@req
una(old(w), ctx), tok(grad.tv()), grad.tv().sh == inp(old(w), ctx, 0).sh,
old(w).v().data[ctx] == dropsaved(old(w).v().data[ctx]), old(w).v().data[ctx].len() == 3 ==> tok(old(w).v().data[ctx][2]->Ts_0) && old(w).v().data[ctx][2]->Ts_0.sh == grad.tv().sh,
@ens
rest(old(w), final(w), 1), one(old(w), final(w), ctx, 0),
inp(old(w), ctx, 0).rg ==> gr(final(w), 0).v == (if old(w).v().data[ctx][0]->B_0 { d_drop(grad.tv().v, old(w).v().data[ctx][2]->Ts_0.v, 1real - old(w).v().data[ctx][1]->Fl_0) } else { grad.tv().v }) && gr(final(w), 0).red == ISet::<int>::empty(),
@at entry
assert(bcto(grad.tv().sh, grad.tv().sh)) by { reveal(bcto); }
assert(w.v().data[ctx][0] is B);
@fn linear_f = tinytorch::function::FuncLinear::forward
@req
tok(input.tv()), tok(weight.tv()), bias.tv().def ==> bcto(bias.tv().sh, mshape(input.tv().sh, weight.tv().sh, false, true)), mmok(input.tv().sh, weight.tv().sh, false, true),
@ens
res.tv().def, res.tv().sh == mshape(input.tv().sh, weight.tv().sh, false, true), res.tv().x == (if bias.tv().def { xadd(xmm(input.tv().x, weight.tv().x, false, true), bias.tv().x) } else { xmm(input.tv().x, weight.tv().x, false, true) }),
@fn conv_f = tinytorch::function::FuncConv2D::forward
@req
ctx != 0 ==> old(w).v().data.contains_key(ctx), tok(input.tv()), tok(weight.tv()), convok(input.tv().sh, weight.tv().sh, stride, padding), bias.tv().def ==> tok(bias.tv()) && bias.tv().sh == seq![weight.tv().sh[0]],
@ens
res.tv().def, ({ let k = kdm(weight.tv().sh); let i = input.tv(); let wt = weight.tv(); let n = i.sh[0]; let oc = wt.sh[0]; let oh = woh(i.sh, k, stride, padding); let ow = wow(i.sh, k, stride, padding);
   let col = xcol(i.x, k, stride, padding); let mm = xmm(col, xreshape(wt.x, seq![oc, -1]), false, true); let y = if bias.tv().def { xadd(mm, bias.tv().x) } else { mm };
   res.tv().sh == seq![n, oc, oh, ow] && res.tv().x == xreshape(xperm(xreshape(y, seq![n, oh * ow, oc]), seq![0, 2, 1]), seq![n, oc, oh, ow]) }),
final(w).v().ins == old(w).v().ins, final(w).v().got == old(w).v().got,
ctx != 0 ==> exists|o: Tv| final(w).v().data[ctx] == #[trigger] convsaved(old(w).v().data[ctx], stride, padding, o) && o.def && o.x == xcol(input.tv().x, kdm(weight.tv().sh), stride, padding) && o.sh == colsh(input.tv().sh, kdm(weight.tv().sh), stride, padding),
@at entry
let ghost ish = input.tv().sh; let ghost wsh = weight.tv().sh;
let ghost n = ish[0]; let ghost oc = wsh[0]; let ghost c = wsh[1]; let ghost kh = wsh[2]; let ghost kw = wsh[3]; let ghost k = kdm(wsh); let ghost oh = woh(ish, k, stride, padding); let ghost ow = wow(ish, k, stride, padding);
lemma_oext(ish[2], kh, padding.h as int, stride.h as int); lemma_oext(ish[3], kw, padding.w as int, stride.w as int);
assert(1 <= ish[0] && 1 <= ish[1] && 1 <= ish[2] && 1 <= ish[3]);
lemma_conv(n, oc, oh, ow, c, kh, kw);
assert(wsh =~= seq![oc, c, kh, kw]);
assert(oh * ow <= 16 * BIG() * BIG()) by (nonlinear_arith) requires 1 <= oh <= 4 * BIG(), 1 <= ow <= 4 * BIG();
assert(bcto(seq![oc], seq![n * (oh * ow), oc])) by { reveal(bcto); }
@at exit
assert(ctx != 0 ==> w.v().data[ctx] == convsaved(old(w).v().data[ctx], stride, padding, col.tv()));
@fn conv_b = tinytorch::function::FuncConv2D::backward
@req
recorded(old(w).v(), ctx, 3), inp(old(w), ctx, 0).def, inp(old(w), ctx, 1).def, tok(grad.tv()),
exists|s: Dm, p: Dm, o: Tv| old(w).v().data[ctx] == #[trigger] convsaved(Seq::empty(), s, p, o) && convok(inp(old(w), ctx, 0).sh, inp(old(w), ctx, 1).sh, s, p) && o.def && o.sh == colsh(inp(old(w), ctx, 0).sh, kdm(inp(old(w), ctx, 1).sh), s, p)
   && grad.tv().sh == seq![inp(old(w), ctx, 0).sh[0], inp(old(w), ctx, 1).sh[0], woh(inp(old(w), ctx, 0).sh, kdm(inp(old(w), ctx, 1).sh), s, p), wow(inp(old(w), ctx, 0).sh, kdm(inp(old(w), ctx, 1).sh), s, p)],
inp(old(w), ctx, 2).def ==> inp(old(w), ctx, 2).sh == seq![inp(old(w), ctx, 1).sh[0]],
@ens
rest(old(w), final(w), 3), one(old(w), final(w), ctx, 0), one(old(w), final(w), ctx, 1), one(old(w), final(w), ctx, 2),
({ let d = old(w).v().data[ctx]; let i = inp(old(w), ctx, 0); let wt = inp(old(w), ctx, 1); let gw = xposrows(grad.tv(), wt.sh[0]);
   (i.rg ==> gr(final(w), 0).x == xcolim(xmm(gw, xreshape(wt.x, seq![wt.sh[0], -1]), false, false), i.sh, kdm(wt.sh), d[0]->D2_0, d[1]->D2_0))
   && (wt.rg ==> gr(final(w), 1).x == xreshape(xpermall(xmm(d[2]->Ts_0.x, gw, true, false)), wt.sh))
   && (inp(old(w), ctx, 2).rg ==> gr(final(w), 2).x == xsum1(gw, 0, false)) }),
@at entry
let ghost ish = inp(w, ctx, 0).sh; let ghost wsh = inp(w, ctx, 1).sh; let ghost dd = w.v().data[ctx]; let ghost ss = dd[0]->D2_0; let ghost pp = dd[1]->D2_0;
let ghost n = ish[0]; let ghost oc = wsh[0]; let ghost c = wsh[1]; let ghost kh = wsh[2]; let ghost kw = wsh[3]; let ghost k = kdm(wsh); let ghost oh = woh(ish, k, ss, pp); let ghost ow = wow(ish, k, ss, pp);
lemma_oext(ish[2], kh, pp.h as int, ss.h as int); lemma_oext(ish[3], kw, pp.w as int, ss.w as int);
assert(1 <= ish[0] && 1 <= ish[1] && 1 <= ish[2] && 1 <= ish[3]);
lemma_conv(n, oc, oh, ow, c, kh, kw);
assert(wsh =~= seq![oc, c, kh, kw]);
@fn f_sinb = tinytorch::op::OpCpuSinBackwardP1::apply<float>
@w none
@ens
res.r() == d_sin(self_.r(), grad.r()),
@fn f_cosb = tinytorch::op::OpCpuCosBackwardP1::apply<float>
@w none
@ens
res.r() == d_cos(self_.r(), grad.r()),
@fn f_divb2 = tinytorch::op::OpCpuDivBackwardP2::apply<float>
@w none
@req
other.r() != 0real,
@ens
res.r() == d_div2(self_.r(), other.r(), grad.r()),
@fn f_powb1 = tinytorch::op::OpCpuPowBackwardP1::apply<float>
@w none
@ens
res.r() == d_pow1(a.r(), b.r(), grad.r()),
@fn f_powb2 = tinytorch::op::OpCpuPowBackwardP2::apply<float>
@w none
@ens
res.r() == d_pow2(a.r(), b.r(), grad.r()),
