@tu
#include <algorithm>
#include <tuple>
#include <utility>
#include "Operation/OpElemWise.h"
namespace std {
template <size_t I> struct vidx {};
template <size_t I, class... A> constexpr typename tuple_element<I, tuple<A...>>::type &vget(tuple<A...> &t, vidx<I> = {}) noexcept { return get<I>(t); }
}
#define get vget
#include "Tensor/TensorIterator.h"
#undef get
#include "Operation/OpElemWiseCpu.h"
#include "Tensor/TensorIterator.cpp"
namespace tinytorch {
struct AbsFn2 { float operator()(const float &a, const float &b) const; };
struct AbsFn3 { float operator()(const float &a, const float &b, const float &c) const; };
struct AbsCmp { bool operator()(const float &a, const float &b) const; };
template void TensorIteratorCpu<Tensor, Tensor>::forEach<float, float, AbsFn2>(Tensor &out, AbsFn2 f);
template void TensorIteratorCpu<Tensor, Tensor, Tensor>::forEach<float, float, AbsFn3>(Tensor &out, AbsFn3 f);
template void TensorIteratorCpu<Tensor, Tensor>::forEach<bool, float, AbsCmp>(Tensor &out, AbsCmp f);
namespace op {
template Tensor binaryOpCpuImpl<float, OpCpuMaximum>(const Tensor &self, const Tensor &other);
}
}
@opt type=tinytorch::TensorIteratorBase=>Iter
@opt type=tinytorch::TensorIteratorCpu<tinytorch::Tensor,tinytorch::Tensor>=>Iter
@opt type=tinytorch::TensorIteratorCpu<tinytorch::Tensor,tinytorch::Tensor,tinytorch::Tensor>=>Iter
@opt type=tinytorch::TensorIteratorCpu<tinytorch::Tensor, tinytorch::Tensor>=>Iter
@opt type=tinytorch::TensorIteratorCpu<tinytorch::Tensor, tinytorch::Tensor, tinytorch::Tensor>=>Iter
@opt type=tinytorch::AbsFn2=>Fu
@opt type=tinytorch::AbsFn3=>Fu
@opt type=tinytorch::AbsCmp=>Fu
@opt struct=TensorIteratorBase
@opt struct=TensorIteratorCpu
@opt type=tinytorch::Tensor *=>Tensor
@opt type=Tensor *=>Tensor
@opt call=operator()/3=>$0($1, $2)
@opt call=operator()/4=>$0($1, $2, $3)
@opt copytype=Fu
@prelude base float nd tensor
@raw
pub struct Iter { pub inputs_: Vec<Tensor>, pub shapes_: Vec<Vec<i64>>, pub strides_: Vec<Vec<i64>>, pub isScalar_: Vec<bool>, pub ndim_: i64, pub total_: i64, pub shape_: Vec<i64>, pub broadcastOk_: bool, pub needBroadcast_: bool, pub allNonScalarSameShape_: bool }
pub fn vall<G: Fn(bool) -> bool>(v: &Vec<bool>, g: G) -> (r: bool)
    requires forall|x: bool| g.requires((x,))
    ensures r ==> forall|i: int| 0 <= i < v.len() ==> g.ensures((#[trigger] v[i],), true), !r ==> exists|i: int| 0 <= i < v.len() && g.ensures((#[trigger] v[i],), false)
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), forall|x: bool| g.requires((x,)), forall|k: int| 0 <= k < i ==> g.ensures((#[trigger] v[k],), true)
        decreases v.len() - i
    { if !g(v[i]) { return false; } i = i + 1; }
    true
}
/// s padded on the left to n entries with ones
pub open spec fn padl(s: Seq<i64>, n: int) -> Seq<i64> { Seq::new(n as nat, |k: int| if k < n - s.len() { 1 } else { s[k - (n - s.len())] }) }
/// extents a (padded) can be read at every position of o: each is one or the same
pub open spec fn bto(a: Seq<i64>, o: Seq<i64>) -> bool { a.len() == o.len() && forall|d: int| 0 <= d < o.len() ==> #[trigger] a[d] == 1 || a[d] == o[d] }
/// extents e and f of one dimension broadcast against each other
pub open spec fn bok(e: i64, f: i64) -> bool { e == f || e == 1 || f == 1 }
/// o is the shape the extents s (padded to o's length) broadcast to: every extent is the common one that is not one, or one
pub open spec fn bshp(s: Seq<Vec<i64>>, o: Seq<i64>) -> bool {
    &&& forall|j: int, d: int| 0 <= j < s.len() && 0 <= d < o.len() ==> #[trigger] padl(s[j]@, o.len() as int)[d] == 1 || padl(s[j]@, o.len() as int)[d] == o[d]
    &&& forall|d: int| 0 <= d < o.len() ==> #[trigger] o[d] == 1 || exists|j: int| 0 <= j < s.len() && padl(#[trigger] s[j]@, o.len() as int)[d] == o[d]
}
@fn bshape = tinytorch::TensorIteratorBase::broadcastShape
@w none
@req
old(ret).len() == 0, 0 <= ndim <= 8, forall|j: int| 0 <= j < shapes.len() ==> (#[trigger] shapes[j]).len() <= ndim,
@ens
final(ret).len() == ndim, res ==> bshp(shapes@, final(ret)@),
!res ==> exists|i: int, j: int, d: int| 0 <= i < shapes.len() && 0 <= j < shapes.len() && 0 <= d < ndim && !bok(#[trigger] padl(shapes[i]@, ndim as int)[d], #[trigger] padl(shapes[j]@, ndim as int)[d]),
@loop 0
ret.len() == ndim,
forall|j: int, d: int| 0 <= j < shapes.len() && 0 <= d < i ==> #[trigger] padl(shapes[j]@, ndim as int)[d] == 1 || padl(shapes[j]@, ndim as int)[d] == ret@[d],
forall|d: int| 0 <= d < i ==> #[trigger] ret@[d] == 1 || exists|j: int| 0 <= j < shapes.len() && padl(#[trigger] shapes[j]@, ndim as int)[d] == ret@[d],
@loop 1
forall|j: int| 0 <= j < k_1 ==> #[trigger] padl(shapes[j]@, ndim as int)[i as int] == 1 || padl(shapes[j]@, ndim as int)[i as int] == dim,
dim == 1 || exists|j: int| 0 <= j < k_1 && padl(#[trigger] shapes[j]@, ndim as int)[i as int] == dim,
@fn ashape = tinytorch::TensorIteratorBase::alignShape
@w none
@req
old(ret).len() == 0, t.shape.len() <= ndim <= 8,
@ens
final(ret)@ == padl(t.shape@, ndim as int),
@loop 0
ret.len() == ndim, forall|k: int| 0 <= k < ndim ==> #[trigger] ret@[k] == if k < ndim - shape.len() || k >= ndim - shape.len() + i { 1 } else { shape@[k - (ndim - shape.len())] },
@at exit
assert(ret@ =~= padl(t.shape@, ndim as int));
@fn astrides = tinytorch::TensorIteratorBase::alignStrides
@w none
@req
old(ret).len() == 0, t.shape.len() <= ndim <= 8, t.geo(),
@ens
final(ret).len() == ndim, forall|k: int| 0 <= k < ndim ==> #[trigger] final(ret)@[k] == if padl(t.shape@, ndim as int)[k] == 1 { 0 } else { sp(padl(t.shape@, ndim as int), k + 1) },
@loop 0
ret.len() == ndim, forall|k: int| 0 <= k < ndim ==> #[trigger] ret@[k] == if k < ndim - shape.len() || k >= ndim - shape.len() + i { 0 } else { if shape@[k - (ndim - shape.len())] == 1 { 0 } else { strides@[k - (ndim - shape.len())] } },
@at exit
assert forall|k: int| 0 <= k < ndim implies #[trigger] ret@[k] == if padl(t.shape@, ndim as int)[k] == 1 { 0 } else { sp(padl(t.shape@, ndim as int), k + 1) } by { lemma_padl(t.shape@, ndim as int, k + 1); }
@raw
pub proof fn lemma_padl(s: Seq<i64>, n: int, k: int)
    requires s.len() <= n, 0 <= k <= n
    ensures sp(padl(s, n), k) == sp(s, if k < n - s.len() { 0 } else { k - (n - s.len()) }), np(padl(s, n), k) == np(s, if k < n - s.len() { 0 } else { k - (n - s.len()) })
    decreases n - k
{
    if k < n {
        lemma_padl(s, n, k + 1);
        if k < n - s.len() { assert(padl(s, n)[k] == 1); assert(1 * sp(padl(s, n), k + 1) == sp(padl(s, n), k + 1)); assert(1 * np(padl(s, n), k + 1) == np(padl(s, n), k + 1)); }
    }
}
pub open spec fn al(it: Iter, j: int) -> Seq<i64> { padl(it.inputs_[j].shape@, it.shape_.len() as int) }
/// position, in row-major order, of the element of an operand of extents a that the result element k of extents o reads
pub open spec fn bsum(a: Seq<i64>, o: Seq<i64>, k: int, d: int) -> int decreases o.len() - d
{ if d < 0 || d >= o.len() { 0 } else { (if a[d] == 1 { 0 } else { coord(o, k, d) * sp(a, d + 1) }) + bsum(a, o, k, d + 1) } }
pub open spec fn bidx(sh: Seq<i64>, o: Seq<i64>, k: int) -> int { bsum(padl(sh, o.len() as int), o, k, 0) }
pub open spec fn shps(it: Iter) -> Seq<Vec<i64>> { Seq::new(it.inputs_.len() as nat, |j: int| it.inputs_[j].shape) }
pub open spec fn okj(it: Iter, j: int) -> bool {
    &&& it.inputs_[j].geo() && it.inputs_[j].shape.len() <= it.shape_.len() && it.shapes_[j]@ == al(it, j) && it.strides_[j].len() == it.shape_.len()
    &&& forall|d: int| 0 <= d < it.shape_.len() ==> #[trigger] it.strides_[j]@[d] == if al(it, j)[d] == 1 { 0 } else { sp(al(it, j), d + 1) }
    &&& it.isScalar_[j] == (it.inputs_[j].shape.len() == 0) && bto(al(it, j), it.shape_@)
    &&& it.allNonScalarSameShape_ && it.inputs_[j].shape.len() > 0 ==> it.inputs_[j].shape@ == it.shape_@
}
/// the iterator after a successful setupBroadcast
pub open spec fn iok(it: Iter, n: int) -> bool {
    &&& it.inputs_.len() == n && it.shapes_.len() == n && it.strides_.len() == n && it.isScalar_.len() == n
    &&& it.ndim_ == it.shape_.len() && it.shape_.len() <= 8 && nonneg(it.shape_@) && fits(it.shape_@) && it.total_ == sp(it.shape_@, 0)
    &&& (forall|j: int| 0 <= j < n ==> #[trigger] it.inputs_[j].shape.len() == 0) ==> it.shape_.len() == 0
    &&& forall|j: int| 0 <= j < n ==> #[trigger] okj(it, j)
}
@fn setup = tinytorch::TensorIteratorBase::setupBroadcast
@w none
@ret Vec<i64>
@var refShape:Vec<i64>
@fn fe_b2 = tinytorch::TensorIteratorCpu<tinytorch::Tensor,tinytorch::Tensor>::forEachBroadcast<float,tinytorch::AbsFn2,const float *,const float *>
@generics <Fu: Fn(F, F) -> F>
@param f:&Fu
@fn fe2 = tinytorch::TensorIteratorCpu<tinytorch::Tensor,tinytorch::Tensor>::forEachImpl<float,float,tinytorch::AbsFn2,0,1>
@generics <Fu: Fn(F, F) -> F>
@param f:Fu
