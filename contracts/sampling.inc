@tu
#include "Distributed/DistributedSampler.cpp"
#include "Data/DataLoader.h"
@opt w=none
@opt type=tinytorch::distributed::DistributedSampler=>DSampler
@opt struct=DistributedSampler
@opt type=tinytorch::data::SequentialSampler=>SeqSampler
@opt struct=SequentialSampler
@opt type=tinytorch::data::RandomSampler=>RndSampler
@opt struct=RandomSampler
@opt type=std::default_random_engine=>Gen
@opt globalref=Gen
@opt type=std::shared_ptr<tinytorch::distributed::DistributedProcessGroup>=>Dpg
@opt type=std::linear_congruential_engine<unsigned long, 16807, 0, 2147483647>=>Gen
@opt type=std::optional<unsigned long>=>OptU
@opt type=std::optional<size_t>=>OptU
@opt type=std::shared_ptr<DistributedProcessGroup>=>Dpg
@opt copytype=OptU Dpg Gen
@opt method=OptU.has_value/0=>$this.has_value()
@opt method=OptU.value/0=>$this.value()
@opt call=tinytorch::RandomGeneratorCPU::getGenerator/0=>gen_get()
@opt call=tinytorch::distributed::DistributedProcessGroup::getInstance/0=>dpg_get()
@opt method=element_type.getWorldSize/0=>dpg_world()
@opt method=element_type.getRank/0=>dpg_rank()
@opt method=Gen.seed/1=>! gen_seed(&mut $this, $0)
@opt call=shuffle/3=>! std_shuffle(&mut $V0, $m2)
@opt call=iota/3=>! iota(&mut $V0, $2)
@opt type=tinytorch::data::DataLoader=>DLoader
@opt struct=DataLoader
@opt type=tinytorch::data::DataLoader::Iterator=>DlIter
@opt struct=Iterator
@opt type=tinytorch::Tensor=>Tsr
@opt type=std::shared_ptr<tinytorch::data::Dataset>=>Ds
@opt type=std::shared_ptr<Dataset>=>Ds
@opt type=std::shared_ptr<tinytorch::data::Sampler>=>Sp
@opt type=std::shared_ptr<Sampler>=>Sp
@opt type=std::tuple<unsigned long, std::vector<tinytorch::Tensor>>=>(usize, Vec<Tsr>)
@opt type=std::tuple<size_t, std::vector<Tensor>>=>(usize, Vec<Tsr>)
@opt type=Iterator=>DlIter
@opt type=Tensor=>Tsr
@opt copytype=Ds Sp Tsr
@opt method=Sp.operator bool/0=>$this.is_some()
@opt method=element_type.indices/0=>$this.indices()
@opt method=element_type.size/0=>$this.size()
@opt method=element_type.getItem/1=>$this.item($0)
@opt call=tinytorch::op::stack/2=>stack(&$0, $1)
@prelude base
@raw
pub struct DSampler { pub datasetSize_: usize, pub numReplicas_: usize, pub rank_: usize, pub shuffle_: bool, pub seed_: usize, pub dropLast_: bool, pub epoch_: usize, pub numSamples_: usize, pub totalSize_: usize, pub indices_: Vec<usize> }
pub struct SeqSampler { pub indices_: Vec<usize> }
pub struct RndSampler { pub datasetSize_: usize, pub seed_: usize, pub epoch_: usize, pub indices_: Vec<usize> }
/// the process wide random engine
pub struct Gen { pub st: Ghost<int> }
#[derive(Clone, Copy)]
pub struct Dpg { pub x: u8 }
#[derive(Clone, Copy)]
pub struct OptU { pub has: bool, pub val: usize }
impl OptU {
    pub fn has_value(&self) -> (r: bool) ensures r == self.has { self.has }
    pub fn value(&self) -> (r: usize) requires self.has ensures r == self.val { self.val }
}
pub struct DLoader { pub dataset_: Ds, pub batchSize_: usize, pub batchCnt_: usize, pub indices_: Vec<usize> }
pub struct DlIter { pub loader_: DLoader, pub batchIdx: usize }
#[derive(Clone, Copy)]
pub struct Tsr { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Ds { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Sp { pub some: bool, pub id: u64 }
pub uninterp spec fn ds_size(d: Ds) -> usize;
pub uninterp spec fn ds_item(d: Ds, x: usize) -> Seq<Tsr>;
pub uninterp spec fn sp_indices(s: Sp) -> Seq<usize>;
pub uninterp spec fn stacked(s: Seq<Tsr>, dim: int) -> Tsr;
impl Sp {
    pub fn is_some(&self) -> (r: bool) ensures r == self.some { self.some }
    #[verifier::external_body]
    pub fn indices(&self) -> (r: Vec<usize>) requires self.some ensures r@ == sp_indices(*self) { unimplemented!() }
}
impl Ds {
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == ds_size(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn item(&self, x: usize) -> (r: Vec<Tsr>) ensures r@ == ds_item(*self, x) { unimplemented!() }
}
#[verifier::external_body]
pub fn stack(v: &Vec<Tsr>, dim: i64) -> (r: Tsr) ensures r == stacked(v@, dim as int) { unimplemented!() }
pub open spec fn nbatch(n: int, b: int, drop: bool) -> int { if drop { n / b } else { n / b + (if n % b != 0 { 1int } else { 0 }) } }
pub open spec fn lo(d: DLoader, b: int) -> int { b * d.batchSize_ }
pub open spec fn hi(d: DLoader, b: int) -> int { if lo(d, b) + d.batchSize_ <= d.indices_@.len() { lo(d, b) + d.batchSize_ } else { d.indices_@.len() as int } }
/// component j of the samples at positions [a, b) of the pass
pub open spec fn col(d: DLoader, j: int, a: int, b: int) -> Seq<Tsr> { Seq::new((b - a) as nat, |k: int| ds_item(d.dataset_, d.indices_[a + k])[j]) }
/// every sample has the same number of components
pub open spec fn uniform(d: DLoader, n: int) -> bool { forall|k: int| 0 <= k < d.indices_@.len() ==> ds_item(d.dataset_, #[trigger] d.indices_[k]).len() == n }
/// the batches [lo(b), hi(b)) for b < nbatch tile the pass: consecutive, non-empty, all full but possibly the last
pub proof fn lemma_tile(d: DLoader, b: int, drop: bool)
    requires d.batchSize_ > 0, 0 <= b < nbatch(d.indices_@.len() as int, d.batchSize_ as int, drop)
    ensures 0 <= lo(d, b) < hi(d, b) <= d.indices_@.len(), lo(d, 0) == 0, b + 1 < nbatch(d.indices_@.len() as int, d.batchSize_ as int, drop) ==> hi(d, b) == lo(d, b + 1) && hi(d, b) == lo(d, b) + d.batchSize_,
        b + 1 == nbatch(d.indices_@.len() as int, d.batchSize_ as int, drop) ==> if drop { hi(d, b) == lo(d, b) + d.batchSize_ && d.indices_@.len() < hi(d, b) + d.batchSize_ } else { hi(d, b) == d.indices_@.len() }
{
    let n = d.indices_@.len() as int; let s = d.batchSize_ as int; let q = n / s; let r = n % s;
    assert(n == q * s + r && 0 <= r < s) by (nonlinear_arith) requires s > 0, n >= 0, q == n / s, r == n % s;
    assert(b < q ==> b * s + s <= q * s) by (nonlinear_arith) requires s > 0;
    assert((b + 1) * s == b * s + s) by (nonlinear_arith);
    assert(0 <= b * s && 0 * s == 0) by (nonlinear_arith) requires b >= 0, s > 0;
    if b + 1 < q { assert((b + 1) * s + s <= q * s) by (nonlinear_arith) requires s > 0, b + 1 < q; }
}
pub uninterp spec fn seeded(x: int) -> int;
pub uninterp spec fn shuffled(s: Seq<usize>, st: int) -> Seq<usize>;
pub open spec fn low32(x: int) -> int { ((x as usize) as u32) as int }
pub open spec fn ident(n: int) -> Seq<usize> { Seq::new(n as nat, |k: int| k as usize) }
/// std::shuffle permutes, and from the same engine state it permutes in the same way
#[verifier::external_body]
pub fn std_shuffle(v: &mut Vec<usize>, g: &mut Gen)
    ensures final(v)@ == shuffled(old(v)@, old(g).st@), final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset()
{ unimplemented!() }
pub axiom fn axiom_shuffled(s: Seq<usize>, st: int) ensures shuffled(s, st).len() == s.len(), shuffled(s, st).to_multiset() == s.to_multiset();
#[verifier::external_body]
pub fn gen_seed(g: &mut Gen, x: usize) ensures final(g).st@ == seeded(x as int) { unimplemented!() }
#[verifier::external_body]
pub fn gen_get() -> (r: Gen) { unimplemented!() }
#[verifier::external_body]
pub fn dpg_get() -> (r: Dpg) { unimplemented!() }
pub uninterp spec fn world_size() -> i64;
pub uninterp spec fn world_rank() -> i64;
#[verifier::external_body]
pub fn dpg_world() -> (r: i64) ensures r == world_size() { unimplemented!() }
#[verifier::external_body]
pub fn dpg_rank() -> (r: i64) ensures r == world_rank() { unimplemented!() }
#[verifier::external_body]
pub fn iota(v: &mut Vec<usize>, x: i32)
    requires x == 0
    ensures final(v)@ == ident(old(v)@.len() as int)
{ unimplemented!() }
