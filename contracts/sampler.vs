@include sampling.inc
/// the order all ranks share
pub open spec fn order(n: int, sh: bool, seed: int, epoch: int) -> Seq<usize> { if sh { shuffled(ident(n), seeded(low32(seed + epoch))) } else { ident(n) } }
/// indices given to each rank
pub open spec fn per(n: int, r: int, drop: bool) -> int { if drop { n / r } else { n / r + (if n % r != 0 { 1int } else { 0 }) } }
/// what rank k of r gets: a block of the shared order, which starts over at its beginning when it runs out
pub open spec fn share(n: int, r: int, k: int, sh: bool, seed: int, epoch: int, drop: bool) -> Seq<usize>
{ let p = per(n, r, drop); Seq::new(p as nat, |j: int| order(n, sh, seed, epoch)[(p * k + j) % n]) }
pub open spec fn ds_ok(d: DSampler) -> bool {
    &&& d.numReplicas_ > 0 && d.rank_ < d.numReplicas_ && d.datasetSize_ + d.numReplicas_ <= i64::MAX
    &&& d.numSamples_ == per(d.datasetSize_ as int, d.numReplicas_ as int, d.dropLast_) && d.totalSize_ == d.numSamples_ * d.numReplicas_
}
pub open spec fn ds_share(d: DSampler) -> Seq<usize> { share(d.datasetSize_ as int, d.numReplicas_ as int, d.rank_ as int, d.shuffle_, d.seed_ as int, d.epoch_ as int, d.dropLast_) }
pub proof fn lemma_per(n: int, r: int)
    requires n >= 0, r > 0
    ensures 0 <= per(n, r, true) * r <= n, n < per(n, r, true) * r + r, n <= per(n, r, false) * r < n + r, n == 0 ==> per(n, r, false) * r == 0, per(n, r, false) >= 0, per(n, r, true) >= 0
{
    assert(n == (n / r) * r + n % r && 0 <= n % r < r && n / r >= 0) by (nonlinear_arith) requires n >= 0, r > 0;
    assert((n / r + 1) * r == (n / r) * r + r) by (nonlinear_arith);
    assert((n / r) * r >= 0);
    if n == 0 { assert(0int / r == 0 && 0int % r == 0) by (nonlinear_arith) requires r > 0; }
}
pub proof fn lemma_order(n: int, sh: bool, seed: int, epoch: int)
    requires 0 <= n <= usize::MAX
    ensures order(n, sh, seed, epoch).len() == n, order(n, sh, seed, epoch).to_multiset() == ident(n).to_multiset(),
        forall|x: int| 0 <= x < n ==> #[trigger] order(n, sh, seed, epoch).contains(x as usize), order(n, sh, seed, epoch).no_duplicates(), forall|k: int| 0 <= k < n ==> #[trigger] order(n, sh, seed, epoch)[k] < n
{
    axiom_shuffled(ident(n), seeded(low32(seed + epoch)));
    let o = order(n, sh, seed, epoch); let d = ident(n);
    o.to_multiset_ensures(); d.to_multiset_ensures();
    assert forall|x: int| 0 <= x < n implies #[trigger] o.contains(x as usize) by { assert(d[x] == x as usize); assert(d.contains(x as usize)); assert(d.to_multiset().count(x as usize) > 0); assert(o.to_multiset().count(x as usize) > 0); }
    d.lemma_multiset_has_no_duplicates(); 
    o.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: int| 0 <= k < n implies #[trigger] o[k] < n by { assert(o.contains(o[k])); assert(o.to_multiset().count(o[k]) > 0); assert(d.contains(o[k])); }
}
/// the property: the ranks get equally many; together (without dropping) every index, and with dropping no index twice and fewer than r left out
pub proof fn lemma_cover(n: int, r: int, sh: bool, seed: int, epoch: int, x: int) -> (q: (int, int))
    requires 0 <= x < n <= usize::MAX, r > 0
    ensures 0 <= q.0 < r, 0 <= q.1 < share(n, r, q.0, sh, seed, epoch, false).len(), share(n, r, q.0, sh, seed, epoch, false)[q.1] == x
{
    lemma_order(n, sh, seed, epoch); lemma_per(n, r);
    let o = order(n, sh, seed, epoch); let p = per(n, r, false);
    assert(o.contains(x as usize));
    let j = o.index_of(x as usize);
    let k = j / p; let m = j % p;
    assert(p > 0) by (nonlinear_arith) requires p * r >= n, n > 0, r > 0;
    assert(j == p * k + m && 0 <= m < p && 0 <= k < r) by (nonlinear_arith) requires k == j / p, m == j % p, p > 0, 0 <= j < p * r;
    assert((p * k + m) % n == j) by (nonlinear_arith) requires 0 <= j < n, j == p * k + m;
    (k, m)
}
pub proof fn lemma_disjoint(n: int, r: int, sh: bool, seed: int, epoch: int, a: int, i: int, b: int, j: int)
    requires 0 <= n <= usize::MAX, r > 0, 0 <= a < r, 0 <= b < r, 0 <= i < per(n, r, true), 0 <= j < per(n, r, true), a != b || i != j
    ensures share(n, r, a, sh, seed, epoch, true)[i] != share(n, r, b, sh, seed, epoch, true)[j]
{
    lemma_order(n, sh, seed, epoch); lemma_per(n, r);
    let p = per(n, r, true); 
    assert(0 <= p * a + i < n && 0 <= p * b + j < n && p * a + i != p * b + j) by (nonlinear_arith) requires 0 <= a < r, 0 <= b < r, 0 <= i < p, 0 <= j < p, p * r <= n, a != b || i != j;
    assert((p * a + i) % n == p * a + i && (p * b + j) % n == p * b + j) by (nonlinear_arith) requires 0 <= p * a + i < n, 0 <= p * b + j < n;
}
@fn gen = tinytorch::distributed::DistributedSampler::generateIndices
@req
ds_ok(*old(this)), old(this).seed_ + old(this).epoch_ <= usize::MAX,
@ens
final(this).datasetSize_ == old(this).datasetSize_, final(this).numReplicas_ == old(this).numReplicas_, final(this).rank_ == old(this).rank_, final(this).shuffle_ == old(this).shuffle_,
final(this).seed_ == old(this).seed_, final(this).dropLast_ == old(this).dropLast_, final(this).epoch_ == old(this).epoch_, final(this).numSamples_ == old(this).numSamples_, final(this).totalSize_ == old(this).totalSize_,
final(this).indices_@ == ds_share(*final(this)),
@at entry
let ghost n = this.datasetSize_ as int; let ghost ord = order(n, this.shuffle_, this.seed_ as int, this.epoch_ as int); let ghost p = this.numSamples_ as int;
lemma_per(n, this.numReplicas_ as int); lemma_order(n, this.shuffle_, this.seed_ as int, this.epoch_ as int);
assert(0 <= p * this.rank_ && p * this.rank_ + p <= this.totalSize_) by (nonlinear_arith) requires p >= 0, 0 <= this.rank_ < this.numReplicas_, this.totalSize_ == p * this.numReplicas_;
@at after /iota\(/
assert(allIndices@ =~= ident(n));
@at loop0.before
assert(allIndices@ == ord);
assert forall|j: int| 0 <= j < n implies #[trigger] allIndices[j] == ord[j % n] by { if n > 0 { assert(j % n == j) by (nonlinear_arith) requires 0 <= j < n; } }
@loop 0
allIndices.len() == n + i, n == 0 ==> this.totalSize_ == 0,
forall|j: int| 0 <= j < allIndices.len() ==> #[trigger] allIndices[j] == ord[j % n],
@dec this.totalSize_ - i
@at loop0.begin
vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i as int, n);
@at before /vassign/
assert forall|j: int| 0 <= j < this.totalSize_ implies #[trigger] allIndices[j] == ord[j % n] by { if this.dropLast_ { assert(j % n == j) by (nonlinear_arith) requires 0 <= j < n; } }
@at exit
assert(this.indices_@ =~= ds_share(*this));
@fn dctor = tinytorch::distributed::DistributedSampler::DistributedSampler/6
@req
({ let r = if numReplicas.has { numReplicas.val as int } else { world_size() as int }; let k = if rank.has { rank.val as int } else { world_rank() as int }; 0 <= k < r && datasetSize + r <= i64::MAX }),
@ens
({ let r = if numReplicas.has { numReplicas.val as int } else { world_size() as int }; let k = if rank.has { rank.val as int } else { world_rank() as int };
   final(this).indices_@ == share(datasetSize as int, r, k, shuffle, seed as int, 0, dropLast) && ds_ok(*final(this)) && final(this).epoch_ == 0 }),
@at entry
let ghost rr = if numReplicas.has { numReplicas.val as int } else { world_size() as int };
lemma_per(datasetSize as int, rr);
@fn depoch = tinytorch::distributed::DistributedSampler::setEpoch
@req
ds_ok(*old(this)), old(this).seed_ + epoch <= usize::MAX,
@ens
ds_ok(*final(this)), final(this).epoch_ == epoch, final(this).indices_@ == share(old(this).datasetSize_ as int, old(this).numReplicas_ as int, old(this).rank_ as int, old(this).shuffle_, old(this).seed_ as int, epoch as int, old(this).dropLast_),
