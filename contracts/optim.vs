@tu
#include "Optimizer.cpp"
#include "Scheduler.cpp"
@opt compound=T
@opt heap=tinytorch::Tensor=>T,Pt
@opt type=Tensor=>T
@opt type=Tensor *=>Pt
@opt type=TensorPtr=>Pt
@opt type=tinytorch::TensorPtr=>Pt
@opt type=tinytorch::Scalar=>T
@opt type=Scalar=>T
@opt type=std::vector<tinytorch::Tensor>=>Vec<T>
@opt type=std::vector<Tensor>=>Vec<T>
@opt type=std::vector<TensorPtr>=>Vec<Pt>
@opt type=std::vector<tinytorch::Tensor *>=>Vec<Pt>
@opt type=Options=>Op
@opt type=tinytorch::Options=>Op
@opt type=std::pair<float, float>=>(F, F)
@opt type=tinytorch::optim::Optimizer=>Optimizer
@opt struct=Optimizer
@opt type=tinytorch::optim::SGD=>SGD
@opt struct=SGD
@opt type=tinytorch::optim::Adagrad=>Adagrad
@opt struct=Adagrad
@opt type=tinytorch::optim::RMSprop=>RMSprop
@opt struct=RMSprop
@opt type=tinytorch::optim::AdaDelta=>AdaDelta
@opt struct=AdaDelta
@opt type=tinytorch::optim::Adam=>Adam
@opt struct=Adam
@opt type=tinytorch::optim::AdamW=>Adam
@opt struct=AdamW
@opt copytype=T Pt Op
@opt pointer=Op
@opt call=operator+/2=>t_add($0, $1)
@opt call=operator-/2=>t_sub($0, $1)
@opt call=operator*/2=>t_mul($0, $1)
@opt call=operator//2=>t_div($0, $1)
@opt call=ctor T/0=>t_undef()
@opt default=T=>t_undef()
@opt cast=F/T=>t_scalar(%s)
@opt derived=SGD Adagrad RMSprop AdaDelta Adam
@opt call=pow/2=>f_pow($0, $1)
@opt method=T.fill_/1=>! t_fill(&mut $this, $0)
@opt call=tinytorch::Tensor::zeros/2=>t_zeros($0)
@opt call=tinytorch::Tensor::empty/2=>t_empty($0)
@opt call=tinytorch::Tensor::maximum/2=>t_max($0, $1)
@opt method=T.defined/0=>t_defined($this)
@opt method=T.clone/0=>t_clone($this)
@opt method=T.sqrt/0=>t_sqrt($this)
@opt method=Pt.requiresGrad/0=>par_req(w, $this)
@opt method=Pt.grad/0=>par_grad(w, $this)
@opt method=Pt.zeroGrad/0=>! par_zero_grad(w, $this)
@opt method=Pt.shape/0=>par_shape(w, $this)
@opt method=Pt.options/0=>0
@opt method=Adam.getDecayedGrad/1=>= adam_decayed(w, this, $0)
@opt method=Optimizer.doStep/0=>! do_step_v(w, this)
@opt type=NoGradGuard=>skip
@opt type=tinytorch::NoGradGuard=>skip
@prelude real
@raw
broadcast use rl::m_comm, rl::m_assoc, rl::m_inv, rl::m_one;
global size_of usize == 8;
pub type Pt = usize; pub type Op = usize; pub type Sh = i64;
/// a tensor as the optimizers use it: whether it is defined, an identity of its shape (-1: a scalar, which combines with
/// every shape), its value at one arbitrary position, and 0 if its storage is its own (otherwise it is a gradient's)
pub struct Tv { pub def: bool, pub sh: int, pub v: real, pub st: int }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct T { _p: u8 }
impl T { pub uninterp spec fn tv(&self) -> Tv; }
pub struct St { pub vals: Map<Pt, Tv>, pub grads: Map<Pt, Tv>, pub req: Map<Pt, bool> }
#[verifier::external_body]
pub struct World { _p: u8 }
impl World { pub uninterp spec fn v(&self) -> St; }
pub open spec fn fits(a: Tv, b: Tv) -> bool { a.def && b.def && (a.sh == b.sh || a.sh == -1 || b.sh == -1) }
pub open spec fn elem(a: Tv, b: Tv, v: real) -> Tv { Tv { def: true, sh: if a.sh == -1 { b.sh } else { a.sh }, v, st: 0 } }
#[verifier::external_body] pub fn t_add(a: T, b: T) -> (r: T) requires fits(a.tv(), b.tv()) ensures r.tv() == elem(a.tv(), b.tv(), a.tv().v + b.tv().v) { unimplemented!() }
#[verifier::external_body] pub fn t_sub(a: T, b: T) -> (r: T) requires fits(a.tv(), b.tv()) ensures r.tv() == elem(a.tv(), b.tv(), a.tv().v - b.tv().v) { unimplemented!() }
#[verifier::external_body] pub fn t_mul(a: T, b: T) -> (r: T) requires fits(a.tv(), b.tv()) ensures r.tv() == elem(a.tv(), b.tv(), m(a.tv().v, b.tv().v)) { unimplemented!() }
#[verifier::external_body] pub fn t_div(a: T, b: T) -> (r: T) requires fits(a.tv(), b.tv()) ensures r.tv() == elem(a.tv(), b.tv(), q(a.tv().v, b.tv().v)) { unimplemented!() }
#[verifier::external_body] pub fn t_max(a: T, b: T) -> (r: T) requires fits(a.tv(), b.tv()) ensures r.tv() == elem(a.tv(), b.tv(), rmax(a.tv().v, b.tv().v)) { unimplemented!() }
#[verifier::external_body] pub fn t_sqrt(a: T) -> (r: T) requires a.tv().def ensures r.tv() == elem(a.tv(), a.tv(), rsqrt_(a.tv().v)) { unimplemented!() }
#[verifier::external_body] pub fn t_clone(a: T) -> (r: T) requires a.tv().def ensures r.tv() == (Tv { st: 0, ..a.tv() }) { unimplemented!() }
#[verifier::external_body] pub fn t_undef() -> (r: T) ensures !r.tv().def { unimplemented!() }
#[verifier::external_body] pub fn t_defined(a: T) -> (r: bool) ensures r == a.tv().def { unimplemented!() }
#[verifier::external_body] pub fn t_scalar(x: F) -> (r: T) ensures r.tv() == (Tv { def: true, sh: -1, v: x.r(), st: 0 }) { unimplemented!() }
#[verifier::external_body] pub fn t_zeros(s: Sh) -> (r: T) ensures r.tv() == (Tv { def: true, sh: s as int, v: 0real, st: 0 }) { unimplemented!() }
#[verifier::external_body] pub fn t_empty(s: Sh) -> (r: T) ensures r.tv() == (Tv { def: true, sh: s as int, v: r.tv().v, st: 0 }) { unimplemented!() }
/// writes into the storage: a tensor that shares a gradient's storage would change the gradient
#[verifier::external_body] pub fn t_fill(a: &mut T, x: T) requires old(a).tv().def, old(a).tv().st == 0, x.tv().def, x.tv().sh == -1 ensures final(a).tv() == (Tv { v: x.tv().v, ..old(a).tv() }) { unimplemented!() }
#[verifier::external_body] pub fn par_req(w: &World, p: Pt) -> (r: bool) requires w.v().req.contains_key(p) ensures r == w.v().req[p] { unimplemented!() }
/// the gradient of a parameter that does not require one cannot be asked for (the library stops there)
#[verifier::external_body] pub fn par_grad(w: &World, p: Pt) -> (r: T) requires w.v().req.contains_key(p), w.v().req[p] ensures r.tv() == w.v().grads[p] { unimplemented!() }
#[verifier::external_body] pub fn par_shape(w: &World, p: Pt) -> (r: Sh) requires w.v().vals.contains_key(p) ensures r as int == w.v().vals[p].sh { unimplemented!() }
#[verifier::external_body] pub fn heap_get_pt(w: &World, p: Pt) -> (r: T) requires w.v().vals.contains_key(p) ensures r.tv() == w.v().vals[p] { unimplemented!() }
#[verifier::external_body] pub fn heap_set_pt(w: &mut World, p: Pt, x: T)
    requires old(w).v().vals.contains_key(p), x.tv().def, x.tv().sh == old(w).v().vals[p].sh
    ensures final(w).v() == (St { vals: old(w).v().vals.insert(p, x.tv()), ..old(w).v() }) { unimplemented!() }
/// clearing a gradient: its storage is overwritten with zeros (it is created first where there is none)
#[verifier::external_body] pub fn par_zero_grad(w: &mut World, p: Pt)
    requires old(w).v().req.contains_key(p), old(w).v().req[p], old(w).v().vals.contains_key(p)
    ensures final(w).v() == (St { grads: old(w).v().grads.insert(p, Tv { def: true, sh: old(w).v().vals[p].sh, v: 0real, st: final(w).v().grads[p].st }), ..old(w).v() }), final(w).v().grads[p].st != 0 { unimplemented!() }
#[verifier::external_body] pub fn vresize(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x }) { unimplemented!() }
#[verifier::external_body] pub fn vset(v: &mut Vec<T>, i: usize, x: T) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { unimplemented!() }
#[verifier::external_body] pub fn vclone(v: &Vec<Pt>) -> (r: Vec<Pt>) ensures r@ == v@ { unimplemented!() }
pub open spec fn rmax(a: real, b: real) -> real { if a > b { a } else { b } }

pub struct Optimizer { pub parameters_: Vec<Pt>, pub step_: i64, pub lr_: F, pub weightDecay_: F }
pub struct SGD { pub base: Optimizer, pub momentum_: F, pub dampening_: F, pub nesterov_: bool, pub momentumBuffer_: Vec<T> }
pub struct Adagrad { pub base: Optimizer, pub lrDecay_: F, pub initAcc_: F, pub eps_: F, pub stateSums_: Vec<T> }
pub struct RMSprop { pub base: Optimizer, pub alpha_: F, pub eps_: F, pub momentum_: F, pub centered_: bool, pub squareAvg_: Vec<T>, pub momentumBuffer_: Vec<T>, pub gradAvg_: Vec<T> }
pub struct AdaDelta { pub base: Optimizer, pub rho_: F, pub eps_: F, pub squareAvg_: Vec<T>, pub accDelta_: Vec<T> }
/// dyn_w: the object is an AdamW (its dynamic type, which selects the override of getDecayedGrad)
pub struct Adam { pub base: Optimizer, pub beta1_: F, pub beta2_: F, pub eps_: F, pub amsGrad_: bool, pub expAvg_: Vec<T>, pub expAvgSq_: Vec<T>, pub maxExpAvgSq_: Vec<T>, pub dyn_w: bool }

/// the parameters are distinct, defined tensors; a gradient has its parameter's shape and its own storage
pub open spec fn par_ok(s: St, p: Pt) -> bool { s.vals.contains_key(p) && s.grads.contains_key(p) && s.req.contains_key(p) && s.vals[p].def && s.vals[p].sh >= 0 && (s.grads[p].def ==> s.grads[p].sh == s.vals[p].sh && s.grads[p].st != 0) }
pub open spec fn wf(s: St, ps: Seq<Pt>) -> bool { (forall|i: int| 0 <= i < ps.len() ==> par_ok(s, #[trigger] ps[i])) && (forall|i: int, j: int| 0 <= i < j < ps.len() ==> #[trigger] ps[i] != #[trigger] ps[j]) }
/// a state buffer: one entry per parameter, of its shape, and never a gradient's storage (so that clearing or accumulating gradients cannot reach it)
pub open spec fn ent_ok(s: St, p: Pt, t: T) -> bool { t.tv().def ==> t.tv().sh == s.vals[p].sh && t.tv().st == 0 }
pub open spec fn buf(s: St, ps: Seq<Pt>, b: Seq<T>) -> bool { b.len() == ps.len() && (forall|i: int| 0 <= i < ps.len() ==> ent_ok(s, ps[i], #[trigger] b[i])) }
pub open spec fn bufd(s: St, ps: Seq<Pt>, b: Seq<T>) -> bool { buf(s, ps, b) && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] b[i]).tv().def) }
pub open spec fn bufv(s: St, ps: Seq<Pt>, b: Seq<T>, v: real) -> bool { bufd(s, ps, b) && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] b[i]).tv().v == v) }
/// a parameter takes part in a step if it requires a gradient and has one
pub open spec fn active(s: St, p: Pt) -> bool { s.req[p] && s.grads[p].def }
/// what a step may touch: values of the parameters only (their definedness and shape stay)
pub open spec fn only_vals(a: St, b: St, ps: Seq<Pt>) -> bool {
    &&& b.grads == a.grads && b.req == a.req && b.vals.dom() =~= a.vals.dom()
    &&& forall|p: Pt| a.vals.contains_key(p) && !ps.contains(p) ==> #[trigger] b.vals[p] == a.vals[p]
    &&& forall|i: int| 0 <= i < ps.len() ==> (b.vals[#[trigger] ps[i]]).def && b.vals[ps[i]].sh == a.vals[ps[i]].sh
}
/// gradient with the classic weight decay term
pub open spec fn dgrad(o: Optimizer, g: real, x: real) -> real { if o.weightDecay_.r() != 0real { g + m(o.weightDecay_.r(), x) } else { g } }

pub open spec fn sgd_same(n: SGD, o: SGD) -> bool { n.base == o.base && n.momentum_ == o.momentum_ && n.dampening_ == o.dampening_ && n.nesterov_ == o.nesterov_ }
pub open spec fn sgd_inv(s: St, o: SGD) -> bool { wf(s, o.base.parameters_@) && (o.momentum_.r() != 0real ==> buf(s, o.base.parameters_@, o.momentumBuffer_@)) }
/// SGD with momentum, dampening and Nesterov: b = mom b + (1 - damp) g (b = g on the first use), p -= lr (g + mom b | b | g)
pub open spec fn sgd_done(o: SGD, b: Seq<T>, a: St, s: St, i: int) -> bool {
    let p = o.base.parameters_@[i]; let g = dgrad(o.base, a.grads[p].v, a.vals[p].v); let mo = o.momentum_.r(); let b0 = o.momentumBuffer_@[i].tv();
    if !active(a, p) { s.vals[p] == a.vals[p] && (mo != 0real ==> b[i] == o.momentumBuffer_@[i]) }
    else if mo == 0real { s.vals[p].v == a.vals[p].v - m(o.base.lr_.r(), g) }
    else {
        let nb = if b0.def { m(mo, b0.v) + m(1real - o.dampening_.r(), g) } else { g };
        b[i].tv().def && b[i].tv().v == nb && s.vals[p].v == a.vals[p].v - m(o.base.lr_.r(), if o.nesterov_ { g + m(mo, nb) } else { nb })
    }
}

pub open spec fn ag_same(n: Adagrad, o: Adagrad) -> bool { n.base == o.base && n.lrDecay_ == o.lrDecay_ && n.initAcc_ == o.initAcc_ && n.eps_ == o.eps_ }
pub open spec fn ag_inv(s: St, o: Adagrad) -> bool { wf(s, o.base.parameters_@) && bufd(s, o.base.parameters_@, o.stateSums_@) }
/// Adagrad: s += g^2, p -= lr / (1 + (t - 1) decay) g / (sqrt(s) + eps)
pub open spec fn ag_done(o: Adagrad, b: Seq<T>, a: St, s: St, i: int) -> bool {
    let p = o.base.parameters_@[i]; let g = dgrad(o.base, a.grads[p].v, a.vals[p].v); let b0 = o.stateSums_@[i].tv().v;
    if !active(a, p) { s.vals[p] == a.vals[p] && b[i] == o.stateSums_@[i] }
    else { let nb = b0 + m(g, g); let clr = q(o.base.lr_.r(), 1real + m((o.base.step_ - 1) as int as real, o.lrDecay_.r()));
        b[i].tv().v == nb && s.vals[p].v == a.vals[p].v - q(m(clr, g), rsqrt_(nb) + o.eps_.r()) }
}

pub open spec fn rm_same(n: RMSprop, o: RMSprop) -> bool { n.base == o.base && n.alpha_ == o.alpha_ && n.eps_ == o.eps_ && n.momentum_ == o.momentum_ && n.centered_ == o.centered_ }
pub open spec fn rm_inv(s: St, o: RMSprop) -> bool { let ps = o.base.parameters_@; wf(s, ps) && bufd(s, ps, o.squareAvg_@) && (o.momentum_.r() != 0real ==> bufd(s, ps, o.momentumBuffer_@)) && (o.centered_ ==> bufd(s, ps, o.gradAvg_@)) }
/// RMSprop: v = a v + (1 - a) g^2; centered: m = a m + (1 - a) g, d = sqrt(v - m^2), else d = sqrt(v); step g / (d + eps), through a momentum buffer if there is momentum
pub open spec fn rm_done(o: RMSprop, n: RMSprop, a: St, s: St, i: int) -> bool {
    let p = o.base.parameters_@[i]; let g = dgrad(o.base, a.grads[p].v, a.vals[p].v); let al = o.alpha_.r(); let lr = o.base.lr_.r(); let mo = o.momentum_.r();
    if !active(a, p) { s.vals[p] == a.vals[p] && n.squareAvg_@[i] == o.squareAvg_@[i] && (mo != 0real ==> n.momentumBuffer_@[i] == o.momentumBuffer_@[i]) && (o.centered_ ==> n.gradAvg_@[i] == o.gradAvg_@[i]) }
    else {
        let v = m(al, o.squareAvg_@[i].tv().v) + m(m(1real - al, g), g);
        let ga = m(al, o.gradAvg_@[i].tv().v) + m(1real - al, g);
        let d = (if o.centered_ { rsqrt_(v - m(ga, ga)) } else { rsqrt_(v) }) + o.eps_.r();
        let mb = m(mo, o.momentumBuffer_@[i].tv().v) + q(g, d);
        n.squareAvg_@[i].tv().v == v && (o.centered_ ==> n.gradAvg_@[i].tv().v == ga) && (mo != 0real ==> n.momentumBuffer_@[i].tv().v == mb)
        && s.vals[p].v == a.vals[p].v - (if mo != 0real { m(lr, mb) } else { q(m(lr, g), d) })
    }
}

pub open spec fn ad_same(n: AdaDelta, o: AdaDelta) -> bool { n.base == o.base && n.rho_ == o.rho_ && n.eps_ == o.eps_ }
pub open spec fn ad_inv(s: St, o: AdaDelta) -> bool { let ps = o.base.parameters_@; wf(s, ps) && bufd(s, ps, o.squareAvg_@) && bufd(s, ps, o.accDelta_@) }
/// AdaDelta: v = r v + (1 - r) g^2, d = sqrt(u + eps) / sqrt(v + eps) g, u = r u + (1 - r) d^2, p -= lr d
pub open spec fn ad_done(o: AdaDelta, n: AdaDelta, a: St, s: St, i: int) -> bool {
    let p = o.base.parameters_@[i]; let g = dgrad(o.base, a.grads[p].v, a.vals[p].v); let r = o.rho_.r(); let e = o.eps_.r();
    if !active(a, p) { s.vals[p] == a.vals[p] && n.squareAvg_@[i] == o.squareAvg_@[i] && n.accDelta_@[i] == o.accDelta_@[i] }
    else {
        let v = m(r, o.squareAvg_@[i].tv().v) + m(m(1real - r, g), g);
        let u0 = o.accDelta_@[i].tv().v;
        let d = m(q(rsqrt_(u0 + e), rsqrt_(v + e)), g);
        n.squareAvg_@[i].tv().v == v && n.accDelta_@[i].tv().v == m(r, u0) + m(m(1real - r, d), d) && s.vals[p].v == a.vals[p].v - m(o.base.lr_.r(), d)
    }
}

pub open spec fn am_same(n: Adam, o: Adam) -> bool { n.base == o.base && n.beta1_ == o.beta1_ && n.beta2_ == o.beta2_ && n.eps_ == o.eps_ && n.amsGrad_ == o.amsGrad_ && n.dyn_w == o.dyn_w }
pub open spec fn am_inv(s: St, o: Adam) -> bool { let ps = o.base.parameters_@; wf(s, ps) && bufd(s, ps, o.expAvg_@) && bufd(s, ps, o.expAvgSq_@) && (o.amsGrad_ ==> bufd(s, ps, o.maxExpAvgSq_@)) }
/// the gradient Adam works with: AdamW decays the parameter itself instead of adding the decay to the gradient
pub open spec fn am_grad(o: Adam, g: real, x: real) -> real { if o.dyn_w { g } else { dgrad(o.base, g, x) } }
pub open spec fn am_par(o: Adam, x: real) -> real { if o.dyn_w { m(x, 1real - m(o.base.lr_.r(), o.base.weightDecay_.r())) } else { x } }
/// Adam / AdamW: m = b1 m + (1 - b1) g, v = b2 v + (1 - b2) g^2, mh = m / (1 - b1^t), vh = v / (1 - b2^t) (amsgrad: the largest vh so far), p -= lr mh / (sqrt(vh) + eps)
pub open spec fn am_done(o: Adam, n: Adam, a: St, s: St, i: int) -> bool {
    let p = o.base.parameters_@[i]; let g = am_grad(o, a.grads[p].v, a.vals[p].v); let b1 = o.beta1_.r(); let b2 = o.beta2_.r(); let t = o.base.step_ as int as real;
    if !active(a, p) { s.vals[p] == a.vals[p] && n.expAvg_@[i] == o.expAvg_@[i] && n.expAvgSq_@[i] == o.expAvgSq_@[i] && (o.amsGrad_ ==> n.maxExpAvgSq_@[i] == o.maxExpAvgSq_@[i]) }
    else {
        let mt = m(b1, o.expAvg_@[i].tv().v) + m(1real - b1, g);
        let vt = m(b2, o.expAvgSq_@[i].tv().v) + m(m(1real - b2, g), g);
        let mh = q(mt, 1real - rpow(b1, t)); let vh = q(vt, 1real - rpow(b2, t));
        let vm = if o.amsGrad_ { rmax(o.maxExpAvgSq_@[i].tv().v, vh) } else { vh };
        n.expAvg_@[i].tv().v == mt && n.expAvgSq_@[i].tv().v == vt && (o.amsGrad_ ==> n.maxExpAvgSq_@[i].tv().v == vm)
        && s.vals[p].v == am_par(o, a.vals[p].v) - q(m(o.base.lr_.r(), mh), rsqrt_(vm) + o.eps_.r())
    }
}
/// gradient with decay, for either dynamic type: the two overriders' contracts decide (they are proved below)
pub fn adam_decayed(w: &mut World, this: &Adam, p: Pt) -> (r: T)
    requires par_ok(old(w).v(), p)
    ensures r.tv().def == active(old(w).v(), p),
        r.tv().def ==> r.tv().sh == old(w).v().vals[p].sh && r.tv().v == am_grad(*this, old(w).v().grads[p].v, old(w).v().vals[p].v),
        final(w).v().grads == old(w).v().grads, final(w).v().req == old(w).v().req,
        final(w).v().vals == (if this.dyn_w && active(old(w).v(), p) { old(w).v().vals.insert(p, Tv { v: am_par(*this, old(w).v().vals[p].v), st: 0, ..old(w).v().vals[p] }) } else { old(w).v().vals })
{ if this.dyn_w { wdec(w, this, p) } else { odec(w, &this.base, p) } }
/// the dynamic type's step (pure virtual): some relation between the state before and after
pub uninterp spec fn stepped(a: St, o: Optimizer, b: St, n: Optimizer) -> bool;
#[verifier::external_body] pub fn do_step_v(w: &mut World, this: &mut Optimizer) ensures stepped(old(w).v(), *old(this), final(w).v(), *final(this)) { unimplemented!() }
@fn octor = tinytorch::optim::Optimizer::Optimizer
@ens final(this).parameters_@ == parameters@, final(this).step_ == 0, final(this).lr_ == lr, final(this).weightDecay_ == weightDecay, final(w).v() == old(w).v()
@fn ostep = tinytorch::optim::Optimizer::step
@req old(this).step_ < i64::MAX
@ens stepped(old(w).v(), Optimizer { step_: (old(this).step_ + 1) as i64, ..*old(this) }, final(w).v(), *final(this))
@fn ozero = tinytorch::optim::Optimizer::zeroGrad
@req wf(old(w).v(), this.parameters_@)
@ens final(w).v().vals == old(w).v().vals, final(w).v().req == old(w).v().req, wf(final(w).v(), this.parameters_@)
@ens forall|i: int| 0 <= i < this.parameters_@.len() && old(w).v().req[this.parameters_@[i]] ==> final(w).v().grads[#[trigger] this.parameters_@[i]].def && final(w).v().grads[this.parameters_@[i]].v == 0real
@ens forall|p: Pt| !(this.parameters_@.contains(p) && old(w).v().req[p]) ==> #[trigger] final(w).v().grads[p] == old(w).v().grads[p]
@loop 0
w.v().vals == old(w).v().vals,
w.v().req == old(w).v().req,
wf(w.v(), this.parameters_@),
forall|i: int| 0 <= i < k_0 && old(w).v().req[this.parameters_@[i]] ==> w.v().grads[#[trigger] this.parameters_@[i]].def && w.v().grads[this.parameters_@[i]].v == 0real,
forall|p: Pt| !(this.parameters_@.contains(p) && old(w).v().req[p]) ==> #[trigger] w.v().grads[p] == old(w).v().grads[p],
@fn odec = tinytorch::optim::Optimizer::getDecayedGrad
@req par_ok(old(w).v(), param)
@ens final(w).v() == old(w).v(), res.tv().def == active(old(w).v(), param)
@ens res.tv().def ==> res.tv().sh == old(w).v().vals[param].sh && res.tv().v == dgrad(*this, old(w).v().grads[param].v, old(w).v().vals[param].v)
@fn oinit = tinytorch::optim::Optimizer::initCache
@req wf(old(w).v(), old(this).parameters_@), old(cache)@.len() == 0
@ens final(w).v() == old(w).v(), *final(this) == *old(this)
@ens buf(old(w).v(), old(this).parameters_@, final(cache)@), setZero ==> bufv(old(w).v(), old(this).parameters_@, final(cache)@, 0real)
@ens !setZero ==> forall|i: int| 0 <= i < final(cache)@.len() ==> !(#[trigger] final(cache)@[i]).tv().def
@loop 0
w.v() == old(w).v(),
*this == *old(this),
cache@.len() == this.parameters_@.len(),
forall|j: int| 0 <= j < i ==> (#[trigger] cache@[j]).tv() == (Tv { def: true, sh: old(w).v().vals[old(this).parameters_@[j]].sh, v: 0real, st: 0 }),
@fn sgd_ctor = tinytorch::optim::SGD::SGD
@req wf(old(w).v(), parameters@)
@ens final(w).v() == old(w).v(), final(this).base.parameters_@ == parameters@, final(this).base.step_ == 0, final(this).base.lr_ == lr, final(this).base.weightDecay_ == weightDecay
@ens final(this).momentum_ == momentum, final(this).dampening_ == dampening, final(this).nesterov_ == nesterov, sgd_inv(old(w).v(), *final(this))
@ens forall|i: int| 0 <= i < final(this).momentumBuffer_@.len() ==> !(#[trigger] final(this).momentumBuffer_@[i]).tv().def
@fn sgd = tinytorch::optim::SGD::doStep
@req sgd_inv(old(w).v(), *old(this)), old(this).base.step_ >= 1
@ens sgd_same(*final(this), *old(this)), sgd_inv(final(w).v(), *final(this)), only_vals(old(w).v(), final(w).v(), old(this).base.parameters_@)
@ens forall|i: int| 0 <= i < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[i]; sgd_done(*old(this), final(this).momentumBuffer_@, old(w).v(), final(w).v(), i) })
@loop 0
sgd_same(*this, *old(this)),
sgd_inv(w.v(), *this),
only_vals(old(w).v(), w.v(), old(this).base.parameters_@),
forall|j: int| 0 <= j < i ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; sgd_done(*old(this), this.momentumBuffer_@, old(w).v(), w.v(), j) }),
forall|j: int| i <= j < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; w.v().vals[old(this).base.parameters_@[j]] == old(w).v().vals[old(this).base.parameters_@[j]] && (this.momentum_.r() != 0real ==> this.momentumBuffer_@[j] == old(this).momentumBuffer_@[j]) }),
@at loop0.begin
assert(old(this).base.parameters_@.contains(old(this).base.parameters_@[i as int]));
@fn adagrad_ctor = tinytorch::optim::Adagrad::Adagrad
@req wf(old(w).v(), parameters@)
@ens final(w).v() == old(w).v(), final(this).base.parameters_@ == parameters@, final(this).base.step_ == 0, final(this).base.lr_ == lr, final(this).base.weightDecay_ == weightDecay
@ens final(this).lrDecay_ == lrDecay, final(this).eps_ == eps, ag_inv(old(w).v(), *final(this)), bufv(old(w).v(), parameters@, final(this).stateSums_@, initAcc.r())
@loop 0
w.v() == old(w).v(),
this.stateSums_@.len() == parameters@.len(),
forall|j: int| 0 <= j < i ==> (#[trigger] this.stateSums_@[j]).tv() == (Tv { def: true, sh: old(w).v().vals[parameters@[j]].sh, v: initAcc.r(), st: 0 }),
@fn adagrad = tinytorch::optim::Adagrad::doStep
@req ag_inv(old(w).v(), *old(this)), old(this).base.step_ >= 1
@ens ag_same(*final(this), *old(this)), ag_inv(final(w).v(), *final(this)), only_vals(old(w).v(), final(w).v(), old(this).base.parameters_@)
@ens forall|i: int| 0 <= i < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[i]; ag_done(*old(this), final(this).stateSums_@, old(w).v(), final(w).v(), i) })
@loop 0
ag_same(*this, *old(this)),
ag_inv(w.v(), *this),
only_vals(old(w).v(), w.v(), old(this).base.parameters_@),
forall|j: int| 0 <= j < i ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; ag_done(*old(this), this.stateSums_@, old(w).v(), w.v(), j) }),
forall|j: int| i <= j < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; w.v().vals[old(this).base.parameters_@[j]] == old(w).v().vals[old(this).base.parameters_@[j]] && this.stateSums_@[j] == old(this).stateSums_@[j] }),
@at loop0.begin
assert(old(this).base.parameters_@.contains(old(this).base.parameters_@[i as int]));
@fn rms_ctor = tinytorch::optim::RMSprop::RMSprop
@req wf(old(w).v(), parameters@)
@ens final(w).v() == old(w).v(), final(this).base.parameters_@ == parameters@, final(this).base.step_ == 0, final(this).base.lr_ == lr, final(this).base.weightDecay_ == weightDecay
@ens final(this).alpha_ == alpha, final(this).eps_ == eps, final(this).momentum_ == momentum, final(this).centered_ == centered, rm_inv(old(w).v(), *final(this)), bufv(old(w).v(), parameters@, final(this).squareAvg_@, 0real), momentum.r() != 0real ==> bufv(old(w).v(), parameters@, final(this).momentumBuffer_@, 0real), centered ==> bufv(old(w).v(), parameters@, final(this).gradAvg_@, 0real)
@fn rms = tinytorch::optim::RMSprop::doStep
@req rm_inv(old(w).v(), *old(this)), old(this).base.step_ >= 1
@ens rm_same(*final(this), *old(this)), rm_inv(final(w).v(), *final(this)), only_vals(old(w).v(), final(w).v(), old(this).base.parameters_@)
@ens forall|i: int| 0 <= i < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[i]; rm_done(*old(this), *final(this), old(w).v(), final(w).v(), i) })
@loop 0
rm_same(*this, *old(this)),
rm_inv(w.v(), *this),
only_vals(old(w).v(), w.v(), old(this).base.parameters_@),
forall|j: int| 0 <= j < i ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; rm_done(*old(this), *this, old(w).v(), w.v(), j) }),
forall|j: int| i <= j < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; w.v().vals[old(this).base.parameters_@[j]] == old(w).v().vals[old(this).base.parameters_@[j]] && this.squareAvg_@[j] == old(this).squareAvg_@[j] && (this.momentum_.r() != 0real ==> this.momentumBuffer_@[j] == old(this).momentumBuffer_@[j]) && (this.centered_ ==> this.gradAvg_@[j] == old(this).gradAvg_@[j]) }),
@at loop0.begin
assert(old(this).base.parameters_@.contains(old(this).base.parameters_@[i as int]));
@fn ada_ctor = tinytorch::optim::AdaDelta::AdaDelta
@req wf(old(w).v(), parameters@)
@ens final(w).v() == old(w).v(), final(this).base.parameters_@ == parameters@, final(this).base.step_ == 0, final(this).base.lr_ == lr, final(this).base.weightDecay_ == weightDecay
@ens final(this).rho_ == rho, final(this).eps_ == eps, ad_inv(old(w).v(), *final(this)), bufv(old(w).v(), parameters@, final(this).squareAvg_@, 0real), bufv(old(w).v(), parameters@, final(this).accDelta_@, 0real)
@fn ada = tinytorch::optim::AdaDelta::doStep
@req ad_inv(old(w).v(), *old(this)), old(this).base.step_ >= 1
@ens ad_same(*final(this), *old(this)), ad_inv(final(w).v(), *final(this)), only_vals(old(w).v(), final(w).v(), old(this).base.parameters_@)
@ens forall|i: int| 0 <= i < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[i]; ad_done(*old(this), *final(this), old(w).v(), final(w).v(), i) })
@loop 0
ad_same(*this, *old(this)),
ad_inv(w.v(), *this),
only_vals(old(w).v(), w.v(), old(this).base.parameters_@),
forall|j: int| 0 <= j < i ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; ad_done(*old(this), *this, old(w).v(), w.v(), j) }),
forall|j: int| i <= j < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; w.v().vals[old(this).base.parameters_@[j]] == old(w).v().vals[old(this).base.parameters_@[j]] && this.squareAvg_@[j] == old(this).squareAvg_@[j] && this.accDelta_@[j] == old(this).accDelta_@[j] }),
@at loop0.begin
assert(old(this).base.parameters_@.contains(old(this).base.parameters_@[i as int]));
@fn adam_ctor = tinytorch::optim::Adam::Adam
@req wf(old(w).v(), parameters@)
@ens final(w).v() == old(w).v(), final(this).base.parameters_@ == parameters@, final(this).base.step_ == 0, final(this).base.lr_ == lr, final(this).base.weightDecay_ == weightDecay
@ens final(this).beta1_ == betas.0, final(this).beta2_ == betas.1, final(this).eps_ == eps, final(this).amsGrad_ == amsGrad, final(this).dyn_w == old(this).dyn_w, am_inv(old(w).v(), *final(this)), bufv(old(w).v(), parameters@, final(this).expAvg_@, 0real), bufv(old(w).v(), parameters@, final(this).expAvgSq_@, 0real), amsGrad ==> bufv(old(w).v(), parameters@, final(this).maxExpAvgSq_@, 0real)
@fn adam = tinytorch::optim::Adam::doStep
@req am_inv(old(w).v(), *old(this)), old(this).base.step_ >= 1
@ens am_same(*final(this), *old(this)), am_inv(final(w).v(), *final(this)), only_vals(old(w).v(), final(w).v(), old(this).base.parameters_@)
@ens forall|i: int| 0 <= i < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[i]; am_done(*old(this), *final(this), old(w).v(), final(w).v(), i) })
@loop 0
am_same(*this, *old(this)),
am_inv(w.v(), *this),
only_vals(old(w).v(), w.v(), old(this).base.parameters_@),
forall|j: int| 0 <= j < i ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; am_done(*old(this), *this, old(w).v(), w.v(), j) }),
forall|j: int| i <= j < old(this).base.parameters_@.len() ==> ({ let _ = #[trigger] old(this).base.parameters_@[j]; w.v().vals[old(this).base.parameters_@[j]] == old(w).v().vals[old(this).base.parameters_@[j]] && this.expAvg_@[j] == old(this).expAvg_@[j] && this.expAvgSq_@[j] == old(this).expAvgSq_@[j] && (this.amsGrad_ ==> this.maxExpAvgSq_@[j] == old(this).maxExpAvgSq_@[j]) }),
@at loop0.begin
assert(old(this).base.parameters_@.contains(old(this).base.parameters_@[i as int]));
@fn adamw_ctor = tinytorch::optim::AdamW::AdamW
@req wf(old(w).v(), parameters@)
@ens final(w).v() == old(w).v(), final(this).base.parameters_@ == parameters@, final(this).base.step_ == 0, final(this).base.lr_ == lr, final(this).base.weightDecay_ == weightDecay
@ens final(this).beta1_ == betas.0, final(this).beta2_ == betas.1, final(this).eps_ == eps, final(this).amsGrad_ == amsGrad, final(this).dyn_w == old(this).dyn_w, am_inv(old(w).v(), *final(this)), bufv(old(w).v(), parameters@, final(this).expAvg_@, 0real), bufv(old(w).v(), parameters@, final(this).expAvgSq_@, 0real), amsGrad ==> bufv(old(w).v(), parameters@, final(this).maxExpAvgSq_@, 0real)
@fn wdec = tinytorch::optim::AdamW::getDecayedGrad
@req par_ok(old(w).v(), param)
@ens res.tv().def == active(old(w).v(), param), res.tv().def ==> res.tv().sh == old(w).v().vals[param].sh && res.tv().v == old(w).v().grads[param].v
@ens final(w).v().grads == old(w).v().grads, final(w).v().req == old(w).v().req
@ens final(w).v().vals == (if active(old(w).v(), param) { old(w).v().vals.insert(param, Tv { v: m(old(w).v().vals[param].v, 1real - m(this.base.lr_.r(), this.base.weightDecay_.r())), st: 0, ..old(w).v().vals[param] }) } else { old(w).v().vals })
