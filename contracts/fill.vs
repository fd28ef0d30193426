@tu
#include "Operation/OpFillingCpu.cpp"
@opt type=tinytorch::Scalar=>Sc
@opt type=Scalar=>Sc
@opt copytype=Sc
@opt method=Sc.to/0=>$this.to_f()
@opt call=fill_n/3=>! fill_n_f(w, $0, $1, $2)
@opt method=Tensor.item/0=>item_f(w, $this)
@opt type=std::default_random_engine=>Gen
@opt type=std::uniform_real_distribution<float>=>Uni
@opt type=std::normal_distribution<float>=>Nrm
@opt type=std::bernoulli_distribution=>Ber
@opt copytype=Gen Uni Nrm Ber
@opt globalref=Gen
@opt call=tinytorch::RandomGeneratorCPU::getGenerator/0=>gen_get()
@opt call=ctor Uni/2=>Uni::new($0, $1)
@opt call=ctor Nrm/2=>Nrm::new($0, $1)
@opt call=ctor Ber/1=>Ber::new($0)
@opt call=operator()/2=>$0.draw($m1)
@prelude base float nd tensor
@raw
#[derive(Clone, Copy)]
pub struct Sc { pub x: u64 }
pub uninterp spec fn sc_f(s: Sc) -> F;
impl Sc { #[verifier::external_body] pub fn to_f(&self) -> (r: F) ensures r == sc_f(*self) { unimplemented!() } }
/// std::fill_n
#[verifier::external_body]
pub fn fill_n_f(w: &mut World, p: Ptr, n: i64, x: F)
    requires n > 0 ==> inb(old(w).f@, p.b, p.o as int) && inb(old(w).f@, p.b, p.o + n - 1)
    ensures final(w).i == old(w).i, final(w).b == old(w).b, n <= 0 ==> final(w).f == old(w).f,
        n > 0 ==> final(w).f@ == old(w).f@.insert(p.b, Seq::new(old(w).f@[p.b].len(), |k: int| if p.o <= k < p.o + n { x } else { old(w).f@[p.b][k] }))
{ unimplemented!() }
#[verifier::external_body]
pub fn item_f(w: &World, t: &Tensor) -> (r: F)
    requires t.wf(*w), t.numel == 1
    ensures r == t.at(*w, 0)
{ unimplemented!() }
@include wrote.inc
@include gen.inc
#[derive(Clone, Copy)]
pub struct Nrm { pub a: F, pub b: F, pub st: u64 }
#[derive(Clone, Copy)]
pub struct Ber { pub p: D, pub st: u64 }
pub uninterp spec fn nrm_val(a: F, b: F, s: (u64, u64)) -> F;
pub uninterp spec fn nrm_next(a: F, b: F, s: (u64, u64)) -> (u64, u64);
pub open spec fn nrm_st(a: F, b: F, s: (u64, u64), k: int) -> (u64, u64) decreases k { if k <= 0 { s } else { nrm_next(a, b, nrm_st(a, b, s, k - 1)) } }
pub uninterp spec fn ber_val(p: D, s: (u64, u64)) -> bool;
pub uninterp spec fn ber_next(p: D, s: (u64, u64)) -> (u64, u64);
pub open spec fn ber_st(p: D, s: (u64, u64), k: int) -> (u64, u64) decreases k { if k <= 0 { s } else { ber_next(p, ber_st(p, s, k - 1)) } }
impl Nrm {
    #[verifier::external_body]
    pub fn new(a: F, b: F) -> (r: Nrm) ensures r.a == a, r.b == b, r.st == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn draw(&mut self, g: &mut Gen) -> (r: F)
        ensures r == nrm_val(old(self).a, old(self).b, (old(self).st, old(g).st)), final(self).a == old(self).a, final(self).b == old(self).b,
            (final(self).st, final(g).st) == nrm_next(old(self).a, old(self).b, (old(self).st, old(g).st))
    { unimplemented!() }
}
impl Ber {
    #[verifier::external_body]
    pub fn new(p: D) -> (r: Ber) ensures r.p == p, r.st == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn draw(&mut self, g: &mut Gen) -> (r: bool)
        ensures r == ber_val(old(self).p, (old(self).st, old(g).st)), final(self).p == old(self).p,
            (final(self).st, final(g).st) == ber_next(old(self).p, (old(self).st, old(g).st))
    { unimplemented!() }
}
/// one draw per element, in element order, from one run of the engine that starts in state g
pub open spec fn drawn_uni(w: World, t: Tensor, a: F, b: F, g: u64) -> bool { forall|k: int| 0 <= k < t.numel ==> #[trigger] t.at(w, k) == uni_val(a, b, uni_st(a, b, (0, g), k)) }
pub open spec fn drawn_nrm(w: World, t: Tensor, a: F, b: F, g: u64) -> bool { forall|k: int| 0 <= k < t.numel ==> #[trigger] t.at(w, k) == nrm_val(a, b, nrm_st(a, b, (0, g), k)) }
pub open spec fn drawn_ber(w: World, t: Tensor, p: D, g: u64) -> bool { forall|k: int| 0 <= k < t.numel ==> #[trigger] t.at(w, k) == sf_int(if ber_val(p, ber_st(p, (0, g), k)) { 1 } else { 0 }) }
@fn fill = tinytorch::op::fillOpCpuImpl<float>
@req
old(self_).wf(*old(w)),
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)), forall|k: int| 0 <= k < old(self_).numel ==> #[trigger] final(self_).at(*final(w), k) == sc_f(val),
@at entry
lemma_geo(*self_);
@fn fill_off = tinytorch::op::fillOpOffsetCpuImpl<float>
@req
old(self_).wf(*old(w)), val.wf(*old(w)), val.shape.len() == 0, 0 <= offset, 0 <= count, offset + count <= old(self_).numel,
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)),
forall|k: int| 0 <= k < old(self_).numel ==> #[trigger] final(self_).at(*final(w), k) == if offset <= k < offset + count { val.at(*old(w), 0) } else { old(self_).at(*old(w), k) },
@at entry
lemma_geo(*self_); lemma_geo(*val);
@fn mask_detail = tinytorch::op::fillOpMaskedCpuImplDetail<float>
@req
old(out).wf(*old(w)), self_.wf(*old(w)), mask.bwf(*old(w)), old(out).shape@ == self_.shape@, mask.shape@ == self_.shape@, old(out).blk == self_.blk ==> old(out).off == self_.off,
@ens
*final(out) == *old(out), frame1(*old(w), *final(w), old(out).blk), wrote(*old(w), *final(w), *old(out), *final(out)),
forall|k: int| 0 <= k < self_.numel ==> #[trigger] final(out).at(*final(w), k) == if mask.bat(*old(w), k) != 0 { sc_f(val) } else { self_.at(*old(w), k) },
@at entry
lemma_geo(*self_); lemma_geo(*mask); lemma_geo(*out);
let ghost b = out.blk; let ghost o = out.off as int;
@loop 0
frame1(*old(w), *w, b), w.f@[b].len() == old(w).f@[b].len(), i <= self_.numel,
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { if mask.bat(*old(w), x - o) != 0 { sc_f(val) } else { self_.at(*old(w), x - o) } } else { old(w).f@[b][x] },
@fn masked = tinytorch::op::fillOpMaskedCpuImpl<float>
@req
self_.wf(*old(w)), mask.bwf(*old(w)), mask.dt == 5, mask.shape@ == self_.shape@,
@ens
res.wf(*final(w)), res.shape@ == self_.shape@, keeps(*old(w), *final(w)), fresh(*old(w), res.blk),
forall|k: int| 0 <= k < self_.numel ==> #[trigger] res.at(*final(w), k) == if mask.bat(*old(w), k) != 0 { sc_f(val) } else { self_.at(*old(w), k) },
@at entry
lemma_geo(*self_);
@fn mask_out = tinytorch::op::fillOpMaskedOutCpuImpl<float>
@req
old(out).wf(*old(w)), self_.wf(*old(w)), mask.bwf(*old(w)), mask.dt == 5, mask.shape@ == self_.shape@, old(out).shape@ == self_.shape@, old(out).blk == self_.blk ==> old(out).off == self_.off,
@ens
wrote(*old(w), *final(w), *old(out), *final(out)),
forall|k: int| 0 <= k < self_.numel ==> #[trigger] final(out).at(*final(w), k) == if mask.bat(*old(w), k) != 0 { sc_f(val) } else { self_.at(*old(w), k) },
@at entry
lemma_geo(*self_);
@fn mask_in = tinytorch::op::fillOpMaskedInplaceCpuImpl<float>
@req
old(self_).wf(*old(w)), mask.bwf(*old(w)), mask.dt == 5, mask.shape@ == old(self_).shape@,
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)),
forall|k: int| 0 <= k < old(self_).numel ==> #[trigger] final(self_).at(*final(w), k) == if mask.bat(*old(w), k) != 0 { sc_f(val) } else { old(self_).at(*old(w), k) },
@at entry
lemma_geo(*self_);
@fn linspace = tinytorch::op::fillOpLinSpaceCpuImpl<float>
@req
old(self_).wf(*old(w)), old(self_).numel == steps,
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)),
forall|k: int| 0 <= k < old(self_).numel ==> #[trigger] final(self_).at(*final(w), k) == sf_add(sc_f(start), sf_mul(sf_int(k), sc_f(step))),
@at entry
lemma_geo(*self_);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = self_.off as int;
@at after /tensor_cow/
w1 = *w; b = self_.blk;
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= steps,
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { sf_add(sc_f(start), sf_mul(sf_int(x - o), sc_f(step))) } else { w1.f@[b][x] },
@fn uniform = tinytorch::op::fillOpRandUniformCpuImpl<float>
@req
old(self_).wf(*old(w)),
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)),
exists|g: u64| drawn_uni(*final(w), *final(self_), min, max, g),
sf_le(min, max) ==> forall|k: int| 0 <= k < old(self_).numel ==> sf_le(min, #[trigger] final(self_).at(*final(w), k)) && sf_le(final(self_).at(*final(w), k), max),
@at entry
lemma_geo(*self_);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = self_.off as int; let ghost g = 0u64;
@at after /tensor_cow/
w1 = *w; b = self_.blk;
@at after /gen_get/
g = generator.st;
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= self_.numel, distribution.a == min, distribution.b == max, (distribution.st, generator.st) == uni_st(min, max, (0, g), i as int),
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { uni_val(min, max, uni_st(min, max, (0, g), x - o)) } else { w1.f@[b][x] },
sf_le(min, max) ==> forall|x: int| o <= x < o + i ==> sf_le(min, #[trigger] w.f@[b][x]) && sf_le(w.f@[b][x], max),
@at exit
assert(drawn_uni(*w, *self_, min, max, g));
@fn normal = tinytorch::op::fillOpRandNormalCpuImpl<float>
@req
old(self_).wf(*old(w)),
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)),
exists|g: u64| drawn_nrm(*final(w), *final(self_), mean, stddev, g),
@at entry
lemma_geo(*self_);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = self_.off as int; let ghost g = 0u64;
@at after /tensor_cow/
w1 = *w; b = self_.blk;
@at after /gen_get/
g = generator.st;
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= self_.numel, distribution.a == mean, distribution.b == stddev, (distribution.st, generator.st) == nrm_st(mean, stddev, (0, g), i as int),
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { nrm_val(mean, stddev, nrm_st(mean, stddev, (0, g), x - o)) } else { w1.f@[b][x] },
@at exit
assert(drawn_nrm(*w, *self_, mean, stddev, g));
@fn bernoulli = tinytorch::op::fillOpRandBernoulliCpuImpl<float>
@req
old(self_).wf(*old(w)),
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)),
exists|g: u64| drawn_ber(*final(w), *final(self_), sf_to_d(p), g),
@at entry
lemma_geo(*self_);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = self_.off as int; let ghost g = 0u64;
@at after /tensor_cow/
w1 = *w; b = self_.blk;
@at after /gen_get/
g = generator.st;
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= self_.numel, distribution.p == sf_to_d(p), (distribution.st, generator.st) == ber_st(sf_to_d(p), (0, g), i as int),
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { sf_int(if ber_val(sf_to_d(p), ber_st(sf_to_d(p), (0, g), x - o)) { 1 } else { 0 }) } else { w1.f@[b][x] },
@at exit
assert(drawn_ber(*w, *self_, sf_to_d(p), g));
