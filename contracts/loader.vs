@include sampling.inc
@fn seqctor = tinytorch::data::SequentialSampler::SequentialSampler/1
@ens
final(this).indices_@ == ident(datasetSize as int),
@at exit
assert(this.indices_@ =~= ident(datasetSize as int));
@fn rgen = tinytorch::data::RandomSampler::generateIndices
@req
old(this).seed_ + old(this).epoch_ <= usize::MAX,
@ens
final(this).datasetSize_ == old(this).datasetSize_, final(this).seed_ == old(this).seed_, final(this).epoch_ == old(this).epoch_,
final(this).indices_@ == shuffled(ident(old(this).datasetSize_ as int), seeded(low32(old(this).seed_ + old(this).epoch_))),
final(this).indices_@.len() == old(this).datasetSize_, final(this).indices_@.to_multiset() == ident(old(this).datasetSize_ as int).to_multiset(),
@at after /iota\(/
assert(this.indices_@ =~= ident(old(this).datasetSize_ as int));
@fn rctor = tinytorch::data::RandomSampler::RandomSampler/2
@ens
final(this).indices_@.len() == datasetSize, final(this).indices_@.to_multiset() == ident(datasetSize as int).to_multiset(), final(this).epoch_ == 0, final(this).seed_ == seed, final(this).datasetSize_ == datasetSize,
@fn repoch = tinytorch::data::RandomSampler::setEpoch
@req
old(this).seed_ + epoch <= usize::MAX,
@ens
final(this).indices_@.len() == old(this).datasetSize_, final(this).indices_@.to_multiset() == ident(old(this).datasetSize_ as int).to_multiset(), final(this).epoch_ == epoch,
final(this).indices_@ == shuffled(ident(old(this).datasetSize_ as int), seeded(low32(old(this).seed_ + epoch))),
@fn dlctor = tinytorch::data::DataLoader::DataLoader/5
@req
batchSize > 0,
@ens
final(this).batchSize_ == batchSize,
sampler.some ==> final(this).indices_@ == sp_indices(sampler),
!sampler.some ==> final(this).indices_@.to_multiset() == ident(ds_size(dataset) as int).to_multiset() && final(this).indices_@.len() == ds_size(dataset) && (!shuffle ==> final(this).indices_@ == ident(ds_size(dataset) as int)),
final(this).batchCnt_ == nbatch(final(this).indices_@.len() as int, batchSize as int, dropLast),
@at before /if dropLast/
let ghost nn = this.indices_@.len() as int; let ghost bb = batchSize as int;
assert(nn % bb != 0 ==> nn / bb < nn) by (nonlinear_arith) requires nn >= 0, bb > 0;
assert(nn / bb <= nn) by (nonlinear_arith) requires nn >= 0, bb > 0;
@fn batch = tinytorch::data::DataLoader::Iterator::operator*
@req
lo(this.loader_, this.batchIdx as int) < this.loader_.indices_@.len(), lo(this.loader_, this.batchIdx as int) + this.loader_.batchSize_ <= usize::MAX, this.loader_.batchSize_ > 0,
uniform(this.loader_, ds_item(this.loader_.dataset_, this.loader_.indices_[lo(this.loader_, this.batchIdx as int)]).len() as int),
@ens
({ let d = this.loader_; let b = this.batchIdx as int; let n = ds_item(d.dataset_, d.indices_[lo(d, b)]).len();
   res.0 == b && res.1@.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] res.1[j] == stacked(col(d, j, lo(d, b), hi(d, b)), 0) }),
@at entry
let ghost d = this.loader_; let ghost b = this.batchIdx as int; let ghost l = lo(d, b); let ghost h = hi(d, b); let ghost n = ds_item(d.dataset_, d.indices_[l]).len();
assert(0 <= l) by (nonlinear_arith) requires l == b * d.batchSize_, b >= 0;
@loop 0
l <= i <= h, i == l ==> itemList.len() == 0, i > l ==> itemList.len() == n,
forall|j: int| 0 <= j < itemList.len() ==> #[trigger] itemList[j]@ == col(d, j, l, i as int),
@dec h - i
@at after /vresize/
assert forall|j: int| 0 <= j < n implies #[trigger] itemList[j]@ == col(d, j, l, i as int) by { if i == l { assert(col(d, j, l, l) =~= Seq::<Tsr>::empty()); } }
@loop 1
l <= i < h, item@ == ds_item(d.dataset_, d.indices_[i as int]), itemList.len() == n, item.len() == n,
forall|jj: int| 0 <= jj < n ==> #[trigger] itemList[jj]@ == col(d, jj, l, if jj < j { i + 1 } else { i as int }),
@at loop1.end
assert(itemList[j as int]@ =~= col(d, j as int, l, i + 1));
@loop 2
batch.len() == k_2, itemList.len() == n,
forall|j: int| 0 <= j < k_2 ==> #[trigger] batch[j] == stacked(col(d, j, l, h), 0),
forall|j: int| 0 <= j < n ==> #[trigger] itemList[j]@ == col(d, j, l, h),
