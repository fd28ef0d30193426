"""which units and harness decide each property"""
ASSUME = [
 "memory is accessed only through the tensor's element block (type based); allocation of the result succeeds",
 "extents: the product of a tensor's non-zero extents is below 2^60",
]
PROPS = {
 "C05": dict(level="proof", units=["permute", "slabs"], bounded=[], explain="",
   note="triu/tril proved for all shapes; the remaining layout operations are a bounded stand-in"),
 "C04": dict(level="proof", units=["unary"], bounded=["two- and three-operand operations (broadcasting iterator), comparisons, in-place operand forms", "Float16/BFloat16/int64 instantiations", "dispatch from the public API to these kernels"],
   explain="every one-operand element-wise kernel (abs, neg, sign, sqrt, square, exp, log, trigonometric, rounding, clamp, pow with scalar, activations and their derivatives, logical not, ...) is proved to give a result of the operand's shape whose k-th element is the documented expression of the operand's k-th element, and to touch nothing else",
   note="47 one-operand element-wise kernels proved for all shapes (float elements uninterpreted); broadcasting operations are a bounded stand-in"),
 "C16": dict(level="proof", units=["half16"], bounded=["Tensor::to / Scalar conversions (they use the proved conversions element by element)"],
   explain="every conversion function is extracted from Half.h/BFloat16.h to C text and checked against an integer specification of IEEE rounding for all 2^32 floats / 2^16 patterns at once (CBMC code contracts, loop-free, so not bounded); lemmas show the specification is the nearest value with ties to even and that the round trip is the identity",
   note="conversions proved for every bit pattern by CBMC code contracts"),
}
PROPS["C03"] = dict(level="proof", units=["shape"], bounded=["squeeze over a list of dimensions", "Tensor-level wrappers (reshape, view, flatten, ... of tinytorch::Tensor) around the proved TensorImpl functions", "TensorImpl constructors"],
   explain="the geometry functions of TensorImpl are proved against: storage, offset and element count unchanged, strides row-major, the new extents exactly those asked for (inferred extent = count / product of the others), an impossible request leaves the tensor unchanged",
   note="computeStrides, computeNumel, reshape_, flatten_, unflatten_, squeeze_, unsqueeze_ proved for all shapes and arguments")
PROPS["C17"] = dict(level="proof", units=[], bounded=[], explain="", note="")
PROPS["C07"] = dict(level="proof", units=["reduce"], bounded=["variance (all, per dimension)", "Float16/BFloat16 instantiations", "dispatch from the public API to these kernels"],
   explain="the float reduction kernels are proved against folds over the row each result element stands for: which elements, in storage order, first index of equals, result shape, divisor of the mean, input untouched",
   note="sum/min/max/argmin/argmax over everything, min/max with index over one dimension, sum and mean over any set of dimensions proved for all shapes")
PROPS["C08"] = dict(level="proof", units=["linalg"], bounded=["Float16/BFloat16 instantiations", "function::dot and the dispatch from the public API to these kernels"],
   explain="the matrix product is proved for all shapes, batch extents and transpositions: the operands are accepted only when inner extents match and batch extents broadcast, the result has the prescribed shape, and every element is the sum, in order of the inner index, of the products of the row of the left and the column of the right matrix that broadcasting assigns to its batch position",
   note="dot product, gemm triple loop, broadcasting of batch extents, batch offset arithmetic, 1-D promotion and the 2-D fast path proved for all shapes (float elements uninterpreted)")
PROPS["C09"] = dict(level="proof", units=["window", "linalg"], bounded=["convolution and max pooling as compositions of unfolding, products and reductions (function::conv2d, maxPool2d)", "Float16/BFloat16 instantiations"],
   explain="unfolding is proved to put, at every position of the column matrix, exactly the input element its window, channel and kernel position define (zero outside the image), and folding back to give every image element exactly the sum, in window order, of the column entries whose window covers it; the matrix product convolution is built on is proved too",
   note="im2col, col2im and the matrix product proved for all extents, kernels, strides and paddings for which the windows fit")
PROPS["C10"] = dict(level="proof", units=["rows"], bounded=["ropeInit tables", "dropout and dropoutMasked", "'rows of a softmax sum to one', 'a normalised row has mean 0 and variance 1' (float arithmetic is uninterpreted)", "Float16/BFloat16 instantiations", "dispatch from the public API to these kernels"],
   explain="softmax, log-softmax and their gradients, layer norm, RMS norm and rotary embedding are proved to compute, for every position of every row along the axis, exactly the documented expression over that row's own elements in order: stabilised by the row's maximum, one mean/variance per row, optional weight and bias by column, rotation pairs and table row by sequence position",
   note="softmax/log-softmax forward and backward, layer norm, RMS norm and rope application proved for all shapes and axes (float elements uninterpreted)")
PROPS["C22"] = dict(level="proof", units=["sampler"], bounded=["the world size and rank the process group reports"],
   explain="the sampler constructor, generateIndices and setEpoch are proved to give rank k exactly block k of one order shared by all ranks (a function of dataset size, seed and epoch only), restarting at its beginning when it runs out; lemmas over that contract show that the ranks get equally many, that without dropping every index is given to some rank, and that with dropping no index is given twice",
   note="index generation proved for every dataset size, rank count, rank, seed and epoch (std::shuffle trusted to permute and to repeat from the same engine state)")
PROPS["C15"] = dict(level="proof", units=["loader"], bounded=["DataLoader::begin/end and Iterator::operator++/!= (one-line accessors)", "op::stack of a batch (its contract is assumed here)"],
   explain="samplers are proved to produce the identity order or a permutation of all indices; the loader constructor to count batches exactly; the batch operator to stack, component by component, exactly the samples at positions b*size .. min((b+1)*size, n) of the order; a lemma shows these ranges tile the pass, all full but possibly the last",
   note="samplers, batch count and batch contents proved for all sizes, orders and datasets (std::shuffle trusted to permute)")
PROPS["C19"] = dict(level="proof", units=["fill"], bounded=["arange, type conversion and the Tensor creation functions built on the proved fills", "instantiations other than float", "dispatch from the public API to these kernels"],
   explain="constant fill, fill of a range, the four masked fills, linspace and the three random fills are proved to write exactly the prescribed value to every element addressed and nothing outside it (the same block, the rest of the block, every other block); random fills are proved to store exactly one draw per element in element order from one run of the engine",
   note="all float fill kernels proved for all shapes and offsets (draw functions, std::fill_n and Scalar conversion trusted)")
PROPS["C18"] = dict(level="proof", units=["select"], bounded=["Float16/BFloat16 instantiations", "dispatch from the public API to these kernels"],
   explain="cumulative sum, sort, top-k and multinomial are proved for every shape, axis and k: the running sums of each slice in order; the pairs (value, position) of each slice in the order std::sort/std::partial_sort leaves them under exactly the requested comparison, written back to that slice; lemmas show every pair maps back to its source element, no position comes twice, the first k are extremal and ordered; every drawn position is in range, of non-zero weight, and never repeated without replacement",
   note="all four kernels proved for all shapes (std::sort, partial_sort, partial_sum, upper_bound and five facts of IEEE arithmetic trusted)")
PROPS["C06"] = dict(level="proof", units=["index"], bounded=["Float16/BFloat16 instantiations", "dispatch from the public API to these kernels"],
   explain="every element read and written by indexing by position, by index tensors, index selection, gather and scatter is proved to be the one at the row-major offset of the addressed coordinates (negative ones counted from the end), for every rank, shape, view offset and index content; writes are proved to be the sequence of addressed writes in order (last one wins) and to leave every other element of the storage as it was",
   note="all eleven functions proved for all shapes, view offsets and index contents")
PROPS["C01"] = dict(level="proof", units=["cache"], bounded=["CachedAllocator::allocate/deallocate (forwarding to the proved implementation or, with caching off, to the base allocator)", "getAllocator and the tensor storages that use it"],
 explain="every function of the caching allocator is proved to keep one invariant over its block objects, pools, address map and the memory held from the underlying allocator: the blocks partition the held regions, links and addresses agree, exactly the free blocks are in the pools, exactly the blocks in use are in the address map, no two free neighbours. allocate adds one address, not live before, with at least the requested room; deallocate removes exactly that address (an unknown one changes nothing); live ranges are disjoint and inside held memory (lemma); memory is returned only if held and no live address lies in it, and the destructor of an idle cache returns all of it",
 note="all 23 functions of the caching allocator proved for every history (std::set, the hash map and the underlying allocator by contract; requests up to 2^62 bytes)")
PROPS["C13"] = dict(level="proof", units=["optim", "sched"], bounded=["NoGradGuard around a step", "rounding of the float arithmetic (the proofs are over real numbers)", "the element-wise tensor operations the update rules are written with (C04)"],
 explain="constructor, step and gradient handling of all optimizers (SGD, Adagrad, RMSprop, AdaDelta, Adam, AdamW; all option combinations) are proved: at an arbitrary position every parameter that has a gradient changes by exactly the published rule, its state entries likewise and by nothing else; parameters without a gradient and their state stay bit for bit; gradients are not changed; state buffers never share storage with a gradient (so clearing or accumulating gradients cannot reach them), an invariant of every step. Arithmetic over the reals, modulo commutativity and associativity. Scheduler: each step advances the epoch once and sets the prescribed rate; StepLR's rule and its closed form lr0 * gamma^floor(e/size) (lemma)",
 note="all optimizer and scheduler functions proved over real arithmetic (tensor operations by contract; parameters distinct)")
PROPS["C12"] = dict(level="proof", units=["grads"], bounded=["max pooling's rule", "the fused operations' rules", "the kernels the rules call, apart from their scalar formulas (C04, C07, C08, C09, C10)", "mean square error's and dropout's backward kernels", "rounding of the float arithmetic (the proofs are over real numbers)"],
 explain="the backward rule of every element-wise, activation, shape, reduction, loss and layer operation (max pooling apart) is proved: for each recorded input that requires a gradient it delivers exactly one, in that input's shape, and to no other input any; at an arbitrary position of the broadcast space the delivered value is the upstream gradient times the derivative (real arithmetic, quantified over the values of inputs and upstream gradient), summed over exactly the dimensions along which the input was broadcast (reduceGrad, for all ranks and shapes); whole-value rules (permute, reshape, softmax, matrix products, convolution) deliver the prescribed adjoint term of the values saved by the forward function, whose saving order is proved as well",
 note="31 backward rules with the forward functions that save for them, reduceGrad and the scalar derivative formulas, proved over real arithmetic (tensor operations by contract)")
PROPS["C11"] = dict(level="proof", units=["engine"], bounded=["Function::apply and collectTensorInfo (what is recorded)", "NoGradGuard", "Tensor's forwarding methods (addGrad, zeroGrad, backward)", "a hook's own effect"],
 explain="the backward engine is proved for every acyclic recorded graph: buildBackwardGraph lists each operation reachable from the result exactly once and each after all its users; backward empties what an earlier pass left on intermediate results, adds the seed, and feeds every operation once, in that order, with the complete gradient of its result; leaves keep their previous gradient plus the sum of all contributions; addGrad and zeroGrad write only the holder's own gradient tensor, which is never shared with another holder or with the caller's tensor",
 note="graph construction, the backward pass, gradient accumulation and clearing proved for every acyclic graph (the operations' own backward rules by contract: C12)")
PROPS["C20"] = dict(level="proof", units=["loss"], bounded=["the broadcasting iterator mean squared error runs on (C04)", "Float16/BFloat16 instantiations", "dispatch from the public API to these kernels", "rounding of the float arithmetic (the proofs are over real numbers)"],
 explain="both loss kernels and their gradients are proved, in all three reductions and for all shapes, batch sizes and targets (classes counted from the end included): the result has the prescribed shape and is exactly the terms, their sum, or their sum divided by their number; for negative log likelihood term i is minus sample i's score of its own target class, and the gradient is minus the sample's upstream gradient (divided by the batch size for the mean) at exactly those positions and zero elsewhere; for mean squared error term k is the squared difference of the elements broadcasting assigns to position k and its gradient twice the difference times the upstream gradient (divided by the number of terms for the mean); nothing but tensors made by the kernels is written. The recorded functions that call them are proved under C12",
 note="both losses and their gradients proved for all shapes, targets and reductions over real arithmetic (tensor operations by contract)")
for _q, _n in dict(C02="copy on write",
                   C14="saving and loading", C21="modules").items():
    PROPS[_q] = dict(level="proof", units=[], bounded=[_n], explain="", note="")
NA = {
 "C23": "the reducer needs several processes, NCCL and CUDA; a sequential function contract cannot state what all processes hold, and the code is not compiled in this build",
 "C24": "a statement about thread interleavings; the contracts used here are sequential and the allocator has no locks to hang an invariant on (its use is documented as single threaded)",
}
for _p in PROPS.values():
    if not _p["units"]: _p["level"] = "exploration"; _p["note"] = "bounded check against an independent oracle; no contract discharged yet"
