@tu
#include "Scheduler.cpp"
@opt pointer=Oh
@opt type=tinytorch::optim::Optimizer=>Oh
@opt type=Optimizer=>Oh
@opt type=std::optional<int64_t>=>Oi
@opt type=std::optional<long>=>Oi
@opt copytype=Oi
@opt type=tinytorch::optim::lr_scheduler::Scheduler=>Scheduler
@opt struct=Scheduler
@opt type=tinytorch::optim::lr_scheduler::StepLR=>StepLR
@opt struct=StepLR
@opt derived=StepLR
@opt call=ctor Oi/1=>Oi::no()
@opt method=Oi.has_value/0=>$this.some
@opt method=Oi.value/0=>oi_value($this)
@opt method=Oh.getLr/0=>opt_lr(w, $this)
@opt method=Oh.setLr/1=>! opt_set_lr(w, $this, $0)
@opt method=Scheduler.getLr/0=>= get_lr_v(w, this)
@prelude real
@raw
broadcast use rl::m_comm, rl::m_assoc, rl::m_inv, rl::m_one;
global size_of usize == 8;
pub type Oh = usize;
#[derive(Clone, Copy)]
pub struct Oi { pub some: bool, pub val: i64 }
impl Oi { pub fn no() -> (r: Oi) ensures !r.some { Oi { some: false, val: 0 } } }
pub fn oi_value(o: Oi) -> (r: i64) requires o.some ensures r == o.val { o.val }
/// the learning rate of every optimizer
#[verifier::external_body]
pub struct World { _p: u8 }
impl World { pub uninterp spec fn v(&self) -> Map<Oh, real>; }
#[verifier::external_body] pub fn opt_lr(w: &World, o: Oh) -> (r: F) requires w.v().contains_key(o) ensures r.r() == w.v()[o] { unimplemented!() }
#[verifier::external_body] pub fn opt_set_lr(w: &mut World, o: Oh, x: F) requires old(w).v().contains_key(o) ensures final(w).v() == old(w).v().insert(o, x.r()) { unimplemented!() }
pub struct Scheduler { pub optimizer_: Oh, pub lastEpoch_: i64, pub stepCount_: i64, pub lastLr_: F }
pub struct StepLR { pub base: Scheduler, pub stepSize_: i64, pub gamma_: F }
/// (while the base class part is under construction, which is where the step count is one, the dynamic type is Scheduler and the rate stays)
/// the rate the scheduler's dynamic type prescribes for its epoch, given the present rate
pub uninterp spec fn prescribed(s: Scheduler, lr: real) -> real;
#[verifier::external_body] pub fn get_lr_v(w: &mut World, this: &mut Scheduler) -> (r: F)
    requires old(w).v().contains_key(old(this).optimizer_)
    ensures old(this).stepCount_ == 1 ==> r.r() == old(w).v()[old(this).optimizer_],
        final(w).v() == old(w).v(), *final(this) == *old(this), r.r() == prescribed(*old(this), old(w).v()[old(this).optimizer_]) { unimplemented!() }
/// StepLR: the rate is multiplied by gamma at every positive multiple of the step size
pub open spec fn step_lr(size: int, gamma: real, epoch: int, lr: real) -> real { if epoch == 0 || epoch % size != 0 { lr } else { m(lr, gamma) } }
pub open spec fn after(size: int, gamma: real, lr0: real, e: nat) -> real decreases e { if e == 0 { lr0 } else { step_lr(size, gamma, e as int, after(size, gamma, lr0, (e - 1) as nat)) } }
pub open spec fn pow_(g: real, n: nat) -> real decreases n { if n == 0 { 1real } else { m(pow_(g, (n - 1) as nat), g) } }
/// the documented schedule in closed form: after e steps the rate is lr0 * gamma ^ floor(e / size)
pub proof fn lemma_schedule(size: int, gamma: real, lr0: real, e: nat)
    requires size >= 1
    ensures after(size, gamma, lr0, e) == m(lr0, pow_(gamma, (e as int / size) as nat))
    decreases e
{
    if e == 0 { assert(0int / size == 0) by (nonlinear_arith) requires size >= 1; assert(m(1real, lr0) == m(lr0, 1real)); }
    else {
        lemma_schedule(size, gamma, lr0, (e - 1) as nat);
        let q = (e - 1) / size; let r = (e - 1) % size;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e - 1, size);
        assert(0 <= q) by (nonlinear_arith) requires q == (e - 1) / size, e >= 1, size >= 1;
        if r + 1 == size {
            assert(e as int == size * (q + 1)) by (nonlinear_arith) requires e - 1 == size * q + r, r + 1 == size;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(e as int, size, q + 1, 0);
            let x = pow_(gamma, q as nat);
            assert(pow_(gamma, (q + 1) as nat) == m(x, gamma));
            assert(m(m(lr0, x), gamma) == m(lr0, m(x, gamma)));
        } else {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(e as int, size, q, r + 1);
        }
    }
}
@fn step = tinytorch::optim::lr_scheduler::Scheduler::step
@req old(w).v().contains_key(old(this).optimizer_), old(this).stepCount_ < i64::MAX, old(this).lastEpoch_ < i64::MAX
@ens final(this).optimizer_ == old(this).optimizer_, final(this).stepCount_ == old(this).stepCount_ + 1
@ens final(this).lastEpoch_ == (if epoch.some { epoch.val as int } else { old(this).lastEpoch_ + 1 })
@ens old(this).stepCount_ == 0 ==> final(this).lastLr_.r() == old(w).v()[old(this).optimizer_]
@ens final(this).lastLr_.r() == prescribed(Scheduler { optimizer_: old(this).optimizer_, lastEpoch_: final(this).lastEpoch_, stepCount_: final(this).stepCount_, lastLr_: old(this).lastLr_ }, old(w).v()[old(this).optimizer_])
@ens final(w).v() == old(w).v().insert(old(this).optimizer_, final(this).lastLr_.r())
@fn last_lr = tinytorch::optim::lr_scheduler::Scheduler::getLastLr
@ens res == this.lastLr_, final(w).v() == old(w).v()
@fn last_epoch = tinytorch::optim::lr_scheduler::Scheduler::getLastEpoch
@ens res == this.lastEpoch_, final(w).v() == old(w).v()
@fn initial = tinytorch::optim::lr_scheduler::Scheduler::initialStep
@req old(w).v().contains_key(old(this).optimizer_), old(this).lastEpoch_ < i64::MAX
@ens final(this).optimizer_ == old(this).optimizer_, final(this).stepCount_ == 1, final(this).lastEpoch_ == old(this).lastEpoch_ + 1
@ens final(w).v() =~= old(w).v(), final(this).lastLr_.r() == old(w).v()[old(this).optimizer_]
@fn base_lr = tinytorch::optim::lr_scheduler::Scheduler::getLr
@req old(w).v().contains_key(old(this).optimizer_)
@ens final(w).v() == old(w).v(), *final(this) == *old(this), res.r() == old(w).v()[old(this).optimizer_]
@fn sched_ctor = tinytorch::optim::lr_scheduler::Scheduler::Scheduler
@req old(w).v().contains_key(optimizer), lastEpoch < i64::MAX
@ens final(this).optimizer_ == optimizer, final(this).lastEpoch_ == lastEpoch + 1, final(this).stepCount_ == 1, final(w).v() =~= old(w).v(), final(this).lastLr_.r() == old(w).v()[optimizer]
@fn steplr_ctor = tinytorch::optim::lr_scheduler::StepLR::StepLR
@req old(w).v().contains_key(optimizer), lastEpoch < i64::MAX
@ens final(this).base.optimizer_ == optimizer, final(this).base.lastEpoch_ == lastEpoch + 1, final(this).stepSize_ == stepSize, final(this).gamma_ == gamma, final(w).v() =~= old(w).v()
@fn steplr = tinytorch::optim::lr_scheduler::StepLR::getLr
@req old(w).v().contains_key(old(this).base.optimizer_), old(this).stepSize_ >= 1
@ens final(w).v() == old(w).v(), *final(this) == *old(this)
@ens old(this).base.lastEpoch_ >= 0 ==> res.r() == step_lr(old(this).stepSize_ as int, old(this).gamma_.r(), old(this).base.lastEpoch_ as int, old(w).v()[old(this).base.optimizer_])
