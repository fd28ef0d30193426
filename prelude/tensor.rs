// ---------------------------------------------------------------- tensors as kernels see them
// Geometry (shape, strides, numel, storage offset) plus the block holding the elements.  The accessors
// below are the contracts that unit 'tensorimpl' proves for TensorImpl's own methods.
pub struct Opts { pub x: u8 }
impl Clone for Opts { fn clone(&self) -> (r: Opts) ensures r == *self { Opts { x: self.x } } }
impl Copy for Opts {}
#[derive(PartialEq, Eq, Structural)]
pub struct Dev { pub x: u8 }
impl Clone for Dev { fn clone(&self) -> (r: Dev) ensures r == *self { Dev { x: self.x } } }
impl Copy for Dev {}
pub struct Stor { pub b: u64 }
impl Clone for Stor { fn clone(&self) -> (r: Stor) ensures r == *self { Stor { b: self.b } } }
impl Copy for Stor {}
pub struct Tensor { pub shape: Vec<i64>, pub strides: Vec<i64>, pub numel: i64, pub off: i64, pub blk: u64, pub dt: i32 }

/// nothing but float block b changed
pub open spec fn frame1(w0: World, w1: World, b: u64) -> bool { w1.f@ =~= w0.f@.insert(b, w1.f@[b]) && w1.i == w0.i && w1.b == w0.b }
pub proof fn lemma_geo(t: Tensor)
    requires t.geo()
    ensures 0 <= t.numel <= MAXN(), t.numel == pr(t.shape@, 0, t.shape.len() as int),
        forall|k: int| 0 <= k <= t.shape.len() ==> 0 <= #[trigger] sp(t.shape@, k) <= MAXN(),
        forall|a: int, b: int| 0 <= a <= t.shape.len() && b <= t.shape.len() ==> 0 <= #[trigger] pr(t.shape@, a, b) <= MAXN(),
        forall|k: int| 0 <= k < t.shape.len() ==> 0 <= #[trigger] t.shape@[k] <= MAXN(),
{ lemma_fits(t.shape@); lemma_pr_sp(t.shape@, 0, t.shape.len() as int); }
/// every block that existed is unchanged (new blocks may have appeared)
pub open spec fn keeps(w0: World, w1: World) -> bool {
    &&& forall|b: u64| #[trigger] w0.f@.dom().contains(b) ==> w1.f@.dom().contains(b) && w1.f@[b] == w0.f@[b]
    &&& w1.i == w0.i && w1.b == w0.b
}
/// the handle refers to a tensor (default-constructed handles do not)
pub uninterp spec fn tdef(t: Tensor) -> bool;
impl Tensor {
    /// geometry invariant of every tensor
    pub open spec fn geo(&self) -> bool {
        &&& tdef(*self) && self.shape.len() <= 8 && nonneg(self.shape@) && rowmajor(self.shape@, self.strides@) && fits(self.shape@)
        &&& self.numel == sp(self.shape@, 0) && 0 <= self.off <= MAXN()
    }
    /// elements are float and lie inside the block
    pub open spec fn wf(&self, w: World) -> bool
    { self.geo() && w.f@.dom().contains(self.blk) && self.off + self.numel <= w.f@[self.blk].len() <= MAXN() }
    pub open spec fn iwf(&self, w: World) -> bool
    { self.geo() && w.i@.dom().contains(self.blk) && self.off + self.numel <= w.i@[self.blk].len() <= MAXN() }
    pub open spec fn bwf(&self, w: World) -> bool
    { self.geo() && w.b@.dom().contains(self.blk) && self.off + self.numel <= w.b@[self.blk].len() <= MAXN() }
    /// element at linear index k
    pub open spec fn at(&self, w: World, k: int) -> F { w.f@[self.blk][self.off + k] }
    pub open spec fn iat(&self, w: World, k: int) -> i64 { w.i@[self.blk][self.off + k] }
    pub open spec fn bat(&self, w: World, k: int) -> u8 { w.b@[self.blk][self.off + k] }

    pub fn dim(&self) -> (r: i64) requires self.shape.len() <= 8 ensures r == self.shape.len() { self.shape.len() as i64 }
    #[verifier::external_body]
    pub fn defined(&self) -> (r: bool) ensures r == tdef(*self) { unimplemented!() }
    pub fn numel(&self) -> (r: i64) ensures r == self.numel { self.numel }
    pub fn shapev(&self) -> (r: &Vec<i64>) ensures r == self.shape { &self.shape }
    pub fn stridev(&self) -> (r: &Vec<i64>) ensures r == self.strides { &self.strides }
    pub fn shape_at(&self, d: i64) -> (r: i64)
        requires self.shape.len() <= 8, -self.shape.len() <= d < self.shape.len()
        ensures r == self.shape[if d < 0 { d + self.shape.len() } else { d as int }]
    { if d < 0 { self.shape[(d + self.shape.len() as i64) as usize] } else { self.shape[d as usize] } }
    pub fn stride_at(&self, d: i64) -> (r: i64)
        requires self.strides.len() <= 8, -self.strides.len() <= d < self.strides.len()
        ensures r == self.strides[if d < 0 { d + self.strides.len() } else { d as int }]
    { if d < 0 { self.strides[(d + self.strides.len() as i64) as usize] } else { self.strides[d as usize] } }
    pub fn storage_offset(&self) -> (r: i64) ensures r == self.off { self.off }
    pub fn storage(&self) -> (r: Stor) ensures r.b == self.blk { Stor { b: self.blk } }
    pub fn is_scalar(&self) -> (r: bool) ensures r == (self.shape.len() == 0) { self.shape.len() == 0 }
    pub fn dtype(&self) -> (r: i32) ensures r == self.dt { self.dt }
    pub fn device(&self) -> (r: Dev) ensures r.x == 0 { Dev { x: 0 } }
    pub fn opts(&self) -> (r: Opts) ensures r.x == 0 { Opts { x: 0 } }
    pub fn ptr(&self) -> (r: Ptr) ensures r.b == self.blk, r.o == self.off { Ptr { b: self.blk, o: self.off } }
    pub fn iptr(&self) -> (r: IPtr) ensures r.b == self.blk, r.o == self.off { IPtr { b: self.blk, o: self.off } }
    pub fn bptr(&self) -> (r: BPtr) ensures r.b == self.blk, r.o == self.off { BPtr { b: self.blk, o: self.off } }
}
pub fn opts_default() -> (r: Opts) ensures r.x == 0 { Opts { x: 0 } }
pub open spec fn fresh(w: World, b: u64) -> bool { !w.f@.dom().contains(b) && !w.i@.dom().contains(b) && !w.b@.dom().contains(b) }
pub fn opts_indices() -> (r: Opts) ensures r.x == 4 { Opts { x: 4 } }
pub fn opts_bool() -> (r: Opts) ensures r.x == 5 { Opts { x: 5 } }
pub open spec fn frame1i(w0: World, w1: World, b: u64) -> bool { w1.i@ =~= w0.i@.insert(b, w1.i@[b]) && w1.f == w0.f && w1.b == w0.b }
pub open spec fn frame1b(w0: World, w1: World, b: u64) -> bool { w1.b@ =~= w0.b@.insert(b, w1.b@[b]) && w1.f == w0.f && w1.i == w0.i }
#[verifier::external_body]
pub fn tensor_empty_i(w: &mut World, shape: &Vec<i64>, o: Opts) -> (r: Tensor)
    requires shape.len() <= 8, nonneg(shape@), fits(shape@)
    ensures r.geo(), r.off == 0, r.shape@ == shape@, r.dt == 4, fresh(*old(w), r.blk), r.iwf(*final(w)), final(w).i@[r.blk].len() == r.numel,
        frame1i(*old(w), *final(w), r.blk)
{ unimplemented!() }
#[verifier::external_body]
pub fn tensor_empty_b(w: &mut World, shape: &Vec<i64>, o: Opts) -> (r: Tensor)
    requires shape.len() <= 8, nonneg(shape@), fits(shape@)
    ensures r.geo(), r.off == 0, r.shape@ == shape@, r.dt == 5, fresh(*old(w), r.blk), r.bwf(*final(w)), final(w).b@[r.blk].len() == r.numel,
        frame1b(*old(w), *final(w), r.blk)
{ unimplemented!() }
// Tensor::zeros: a new block of zeros (creation and filling is property C19)
#[verifier::external_body]
pub fn tensor_zeros(w: &mut World, shape: &Vec<i64>, o: Opts) -> (r: Tensor)
    requires shape.len() <= 8, nonneg(shape@), fits(shape@)
    ensures r.geo(), r.off == 0, r.shape@ == shape@, r.dt == 0, fresh(*old(w), r.blk), r.wf(*final(w)),
        frame1(*old(w), *final(w), r.blk), final(w).f@[r.blk].len() == r.numel, forall|k: int| 0 <= k < r.numel ==> #[trigger] final(w).f@[r.blk][k] == sf_int(0)
{ unimplemented!() }
// Tensor::empty: a new block of the given shape with unspecified contents
#[verifier::external_body]
pub fn tensor_empty(w: &mut World, shape: &Vec<i64>, o: Opts) -> (r: Tensor)
    requires shape.len() <= 8, nonneg(shape@), fits(shape@)
    ensures r.geo(), r.off == 0, r.shape@ == shape@, r.dt == 0, fresh(*old(w), r.blk), r.wf(*final(w)), final(w).f@[r.blk].len() == r.numel,
        frame1(*old(w), *final(w), r.blk)
{ unimplemented!() }
// Tensor(shape, options, storage, offset): shares the storage
#[verifier::external_body]
pub fn tensor_view(w: &mut World, shape: &Vec<i64>, o: Opts, st: Stor, off: i64) -> (r: Tensor)
    requires shape.len() <= 8, nonneg(shape@), 0 <= off, fits(shape@),
        old(w).f@.dom().contains(st.b) && off + sp(shape@, 0) <= old(w).f@[st.b].len() <= MAXN()
    ensures r.geo(), r.off == off, r.blk == st.b, r.shape@ == shape@, r.wf(*final(w)), *final(w) == *old(w)
{ unimplemented!() }
// clone shares the storage until one side is written (unit 'cow'); as a value it is an equal tensor
#[verifier::external_body]
pub fn tensor_clone(w: &mut World, t: &Tensor) -> (r: Tensor)
    ensures r == *t, *final(w) == *old(w)
{ unimplemented!() }
// copyOnWrite: afterwards this tensor's block is its own; its elements keep their values (unit 'cow')
#[verifier::external_body]
pub fn tensor_cow(w: &mut World, t: &mut Tensor)
    requires old(t).wf(*old(w))
    ensures final(t).shape == old(t).shape, final(t).strides == old(t).strides, final(t).numel == old(t).numel, final(t).off == old(t).off, final(t).dt == old(t).dt,
        final(t).wf(*final(w)), final(t).blk == old(t).blk || fresh(*old(w), final(t).blk),
        final(w).f@ == old(w).f@.insert(final(t).blk, old(w).f@[old(t).blk]), final(w).i == old(w).i, final(w).b == old(w).b
{ unimplemented!() }
#[verifier::external_body]
pub fn tensor_undef() -> (r: Tensor) ensures !tdef(r) { unimplemented!() }
#[verifier::external_body]
pub fn tcopy(t: &Tensor) -> (r: Tensor) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn tvec_undef(n: usize) -> (r: Vec<Tensor>) ensures r.len() == n { unimplemented!() }

// view/reshape to a shape with the same element count (unit 'shape' proves the geometry part)
#[verifier::external_body]
pub fn tensor_reshape_view(w: &mut World, t: &Tensor, shape: &Vec<i64>) -> (r: Tensor)
    requires t.geo(), nonneg(shape@), shape.len() <= 8, fits(shape@), sp(shape@, 0) == t.numel
    ensures r.geo(), r.shape@ == shape@, r.blk == t.blk, r.off == t.off, r.numel == t.numel, *final(w) == *old(w), t.wf(*old(w)) ==> r.wf(*final(w))
{ unimplemented!() }
// reshape_ to a shape with the same element count (unit 'shape' proves the geometry part)
#[verifier::external_body]
pub fn tensor_reshape_(w: &mut World, t: &mut Tensor, shape: &Vec<i64>)
    requires old(t).geo(), nonneg(shape@), shape.len() <= 8, fits(shape@), sp(shape@, 0) == old(t).numel
    ensures final(t).geo(), final(t).shape@ == shape@, final(t).blk == old(t).blk, final(t).off == old(t).off, final(t).numel == old(t).numel, final(t).dt == old(t).dt, *final(w) == *old(w)
{ unimplemented!() }
// fillOffset(t, scalar tensor v, at, n): elements at..at+n become v's element (unit 'fill')
#[verifier::external_body]
pub fn fill_offset(w: &mut World, t: &mut Tensor, v: &Tensor, at: i64, n: i64)
    requires old(t).wf(*old(w)), v.wf(*old(w)), v.numel >= 1, 0 <= at, 0 <= n, at + n <= old(t).numel
    ensures *final(t) == *old(t), frame1(*old(w), *final(w), old(t).blk), final(w).f@[old(t).blk].len() == old(w).f@[old(t).blk].len(),
        forall|k: int| #![trigger final(w).f@[old(t).blk][k]] 0 <= k < old(w).f@[old(t).blk].len() ==> final(w).f@[old(t).blk][k] == (if old(t).off + at <= k < old(t).off + at + n { v.at(*old(w), 0) } else { old(w).f@[old(t).blk][k] })
{ unimplemented!() }
// Tensor::scalar: a new one-element tensor (creation is property C19)
#[verifier::external_body]
pub fn tensor_scalar(w: &mut World, x: F, o: Opts) -> (r: Tensor)
    ensures r.geo(), r.off == 0, r.shape@ == Seq::<i64>::empty(), r.numel == 1, r.dt == 0, fresh(*old(w), r.blk), r.wf(*final(w)), frame1(*old(w), *final(w), r.blk),
        final(w).f@[r.blk].len() == 1, final(w).f@[r.blk][0] == x
{ unimplemented!() }
// mulInplace(t, one-element tensor) (element-wise arithmetic is property C04)
#[verifier::external_body]
pub fn mul_scalar_inplace(w: &mut World, t: &mut Tensor, s: &Tensor)
    requires old(t).wf(*old(w)), s.wf(*old(w)), s.shape.len() == 0
    ensures *final(t) == *old(t), frame1(*old(w), *final(w), old(t).blk), final(w).f@[old(t).blk].len() == old(w).f@[old(t).blk].len(),
        forall|k: int| #![trigger final(w).f@[old(t).blk][k]] 0 <= k < old(w).f@[old(t).blk].len() ==> final(w).f@[old(t).blk][k] == (if old(t).off <= k < old(t).off + old(t).numel { sf_mul(old(w).f@[old(t).blk][k], s.at(*old(w), 0)) } else { old(w).f@[old(t).blk][k] })
{ unimplemented!() }
#[verifier::external_body]
pub fn tensor_scalar_i(w: &mut World, x: i64, o: Opts) -> (r: Tensor)
    ensures r.geo(), r.off == 0, r.shape@ == Seq::<i64>::empty(), r.numel == 1, r.dt == 4, fresh(*old(w), r.blk), r.iwf(*final(w)), frame1i(*old(w), *final(w), r.blk),
        final(w).i@[r.blk].len() == 1, final(w).i@[r.blk][0] == x
{ unimplemented!() }
