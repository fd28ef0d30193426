@tu
#include "Operation/OpElemWiseCpu.h"
namespace tinytorch::op {
#define U(OP) template Tensor unaryOpCpuImpl<float, OP>(const Tensor &); template void unaryOpOutCpuImpl<float, OP>(Tensor &, const Tensor &); template void unaryOpInplaceCpuImpl<float, OP>(Tensor &);
U(OpCpuAbs) U(OpCpuNeg) U(OpCpuSign) U(OpCpuSqrt) U(OpCpuSquare) U(OpCpuExp) U(OpCpuLog) U(OpCpuSin) U(OpCpuCos) U(OpCpuSigmoid) U(OpCpuTanh) U(OpCpuRelu) U(OpCpuGelu) U(OpCpuSilu) U(OpCpuLogicNot)
template Tensor unaryOpBackwardCpuImpl<float, OpCpuSinBackwardP1>(const Tensor &, const Tensor &);
template Tensor unaryOpBackwardCpuImpl<float, OpCpuCosBackwardP1>(const Tensor &, const Tensor &);
}
@prelude base float nd tensor
@raw
@include wrote.inc
@include elemfn.inc
@fn un_Abs = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuAbs>
@req
self_.wf(*old(w)),
@ens
res.wf(*final(w)), res.shape@ == self_.shape@, keeps(*old(w), *final(w)), fresh(*old(w), res.blk),
forall|k: int| 0 <= k < self_.numel ==> #[trigger] res.at(*final(w), k) == ev_abs(self_.at(*old(w), k)),
@at entry
lemma_geo(*self_);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = 0int;
@at after /let mut out: Tensor/
w1 = *w; b = out.blk; o = out.off as int;
lemma_geo(out);
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= self_.numel, fresh(*old(w), b), keeps(*old(w), *w), keeps(*old(w), w1),
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { ev_abs(self_.at(*old(w), x - o)) } else { w1.f@[b][x] },
@fn unin_Abs = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuAbs>
@req
old(self_).wf(*old(w)),
@ens
wrote(*old(w), *final(w), *old(self_), *final(self_)),
forall|k: int| 0 <= k < old(self_).numel ==> #[trigger] final(self_).at(*final(w), k) == ev_abs(old(self_).at(*old(w), k)),
@at entry
lemma_geo(*self_);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = self_.off as int;
@at after /tensor_cow/
w1 = *w; b = self_.blk;
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= self_.numel,
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { ev_abs(w1.f@[b][x]) } else { w1.f@[b][x] },
@fn unout_Abs = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuAbs>
@req
old(out).wf(*old(w)), self_.wf(*old(w)), self_.shape@ == old(out).shape@, old(out).blk == self_.blk ==> old(out).off == self_.off,
@ens
wrote(*old(w), *final(w), *old(out), *final(out)),
forall|k: int| 0 <= k < self_.numel ==> #[trigger] final(out).at(*final(w), k) == ev_abs(self_.at(*old(w), k)),
@at entry
lemma_geo(*self_); lemma_geo(*out);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = out.off as int;
@at after /tensor_cow/
w1 = *w; b = out.blk;
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= self_.numel,
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { ev_abs(self_.at(*old(w), x - o)) } else { w1.f@[b][x] },
@fn unb_Sin = tinytorch::op::unaryOpBackwardCpuImpl<float,tinytorch::op::OpCpuSinBackwardP1>
@req
self_.wf(*old(w)), grad.wf(*old(w)), self_.shape@ == grad.shape@,
@ens
res.wf(*final(w)), res.shape@ == self_.shape@, keeps(*old(w), *final(w)), fresh(*old(w), res.blk),
forall|k: int| 0 <= k < self_.numel ==> #[trigger] res.at(*final(w), k) == ev_sin_b(self_.at(*old(w), k), grad.at(*old(w), k)),
@at entry
lemma_geo(*self_); lemma_geo(*grad);
let ghost w1 = *w; let ghost b = 0u64; let ghost o = 0int;
@at after /let mut out: Tensor/
w1 = *w; b = out.blk; o = out.off as int;
lemma_geo(out);
@loop 0
frame1(w1, *w, b), w.f@[b].len() == w1.f@[b].len(), i <= self_.numel, fresh(*old(w), b), keeps(*old(w), *w), keeps(*old(w), w1),
forall|x: int| 0 <= x < w.f@[b].len() ==> #[trigger] w.f@[b][x] == if o <= x < o + i { ev_sin_b(self_.at(*old(w), x - o), grad.at(*old(w), x - o)) } else { w1.f@[b][x] },
@like un_Neg = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuNeg> from un_Abs /ev_abs/ev_neg/
@like unin_Neg = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuNeg> from unin_Abs /ev_abs/ev_neg/
@like unout_Neg = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuNeg> from unout_Abs /ev_abs/ev_neg/
@like un_Sign = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuSign> from un_Abs /ev_abs/ev_sign/
@like unin_Sign = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuSign> from unin_Abs /ev_abs/ev_sign/
@like unout_Sign = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuSign> from unout_Abs /ev_abs/ev_sign/
@like un_Sqrt = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuSqrt> from un_Abs /ev_abs/ev_sqrt/
@like unin_Sqrt = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuSqrt> from unin_Abs /ev_abs/ev_sqrt/
@like unout_Sqrt = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuSqrt> from unout_Abs /ev_abs/ev_sqrt/
@like un_Square = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuSquare> from un_Abs /ev_abs/ev_square/
@like unin_Square = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuSquare> from unin_Abs /ev_abs/ev_square/
@like unout_Square = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuSquare> from unout_Abs /ev_abs/ev_square/
@like un_Exp = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuExp> from un_Abs /ev_abs/ev_exp/
@like unin_Exp = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuExp> from unin_Abs /ev_abs/ev_exp/
@like unout_Exp = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuExp> from unout_Abs /ev_abs/ev_exp/
@like un_Log = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuLog> from un_Abs /ev_abs/ev_log/
@like unin_Log = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuLog> from unin_Abs /ev_abs/ev_log/
@like unout_Log = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuLog> from unout_Abs /ev_abs/ev_log/
@like un_Sin = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuSin> from un_Abs /ev_abs/ev_sin/
@like unin_Sin = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuSin> from unin_Abs /ev_abs/ev_sin/
@like unout_Sin = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuSin> from unout_Abs /ev_abs/ev_sin/
@like un_Cos = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuCos> from un_Abs /ev_abs/ev_cos/
@like unin_Cos = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuCos> from unin_Abs /ev_abs/ev_cos/
@like unout_Cos = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuCos> from unout_Abs /ev_abs/ev_cos/
@like un_Sigmoid = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuSigmoid> from un_Abs /ev_abs/ev_sigmoid/
@like unin_Sigmoid = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuSigmoid> from unin_Abs /ev_abs/ev_sigmoid/
@like unout_Sigmoid = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuSigmoid> from unout_Abs /ev_abs/ev_sigmoid/
@like un_Tanh = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuTanh> from un_Abs /ev_abs/ev_tanh/
@like unin_Tanh = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuTanh> from unin_Abs /ev_abs/ev_tanh/
@like unout_Tanh = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuTanh> from unout_Abs /ev_abs/ev_tanh/
@like un_Relu = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuRelu> from un_Abs /ev_abs/ev_relu/
@like unin_Relu = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuRelu> from unin_Abs /ev_abs/ev_relu/
@like unout_Relu = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuRelu> from unout_Abs /ev_abs/ev_relu/
@like un_Gelu = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuGelu> from un_Abs /ev_abs/ev_gelu/
@like unin_Gelu = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuGelu> from unin_Abs /ev_abs/ev_gelu/
@like unout_Gelu = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuGelu> from unout_Abs /ev_abs/ev_gelu/
@like un_Silu = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuSilu> from un_Abs /ev_abs/ev_silu/
@like unin_Silu = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuSilu> from unin_Abs /ev_abs/ev_silu/
@like unout_Silu = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuSilu> from unout_Abs /ev_abs/ev_silu/
@like un_LogicNot = tinytorch::op::unaryOpCpuImpl<float,tinytorch::op::OpCpuLogicNot> from un_Abs /ev_abs/ev_not/
@like unin_LogicNot = tinytorch::op::unaryOpInplaceCpuImpl<float,tinytorch::op::OpCpuLogicNot> from unin_Abs /ev_abs/ev_not/
@like unout_LogicNot = tinytorch::op::unaryOpOutCpuImpl<float,tinytorch::op::OpCpuLogicNot> from unout_Abs /ev_abs/ev_not/
@like unb_Cos = tinytorch::op::unaryOpBackwardCpuImpl<float,tinytorch::op::OpCpuCosBackwardP1> from unb_Sin /ev_sin_b/ev_cos_b/
