/// only the elements the handle addresses may have changed; the handle keeps its geometry (its block may be a private copy)
pub open spec fn wrote(w0: World, w1: World, t0: Tensor, t1: Tensor) -> bool {
    &&& t1.shape == t0.shape && t1.strides == t0.strides && t1.numel == t0.numel && t1.off == t0.off && t1.dt == t0.dt && t1.wf(w1)
    &&& (t1.blk == t0.blk || fresh(w0, t1.blk)) && w1.i == w0.i && w1.b == w0.b
    &&& w1.f@.dom() =~= w0.f@.dom().insert(t1.blk)
    &&& forall|b: u64| b != t1.blk && #[trigger] w0.f@.dom().contains(b) ==> w1.f@[b] == w0.f@[b]
    &&& w1.f@[t1.blk].len() == w0.f@[t0.blk].len()
    &&& forall|x: int| 0 <= x < w0.f@[t0.blk].len() && !(t0.off <= x < t0.off + t0.numel) ==> #[trigger] w1.f@[t1.blk][x] == w0.f@[t0.blk][x]
}
