#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Cached memory: live blocks never overlap and are never lost",
 "For every sequence of allocations, releases and cache clears, blocks handed out by the caching allocator and not yet released are pairwise disjoint, at least as large as requested, and lie inside memory currently held from the underlying allocator. Releasing a block never changes any other live block, a release of an unknown address is ignored, and every underlying block is returned exactly once and only when none of its pieces is in use.",
 ["histories", "inputs"], "all finite histories of allocate/deallocate/clear with arbitrary sizes, starting from an empty cache",
 "Unit tests replay a handful of sizes through the tensors; splitting, merging of both neighbours, best-fit reuse and the small/large pool limits only interact over long histories.",
 ["src/Tensor/CachedAllocator.cpp", "src/Tensor/CachedAllocator.h", "src/Tensor/Allocator.cpp", "src/Tensor/Allocator.h"],
 [("best-fit pools, block splitting and neighbour merging", "src/Tensor/CachedAllocator.cpp")],
 [("free pools / allocated map / neighbour links", "partition of every base block into free and live pieces", "src/Tensor/CachedAllocator.h")],
 ["allocate/deallocate return values", "calls made to the base allocator"])

prop("C02", "Writing to one tensor never changes the value of another",
 "Clones and reshaped, flattened or sliced copies of a tensor keep their element values when any other tensor they were made from or that was made from them is modified in place, in any order. Assigning or passing a tensor handle refers to the same tensor and sees fills, copies, scatters, index assignments and in-place operations made through it, while a compound assignment operator or in-place reshape gives a new value to the assigned handle only.",
 ["histories", "programs"], "every interleaving of clone/reshape/detach and in-place mutators over tensors that share storage",
 "Sharing is invisible until a specific clone-then-write order occurs with a specific mutator; tests only write to freshly made tensors.",
 ["src/Tensor/TensorImpl.cpp", "src/Tensor/TensorImpl.h", "src/Tensor/Storage.cpp", "src/Tensor/Tensor.cpp", "src/Operation/OpFillingCpu.h", "src/Operation/OpElemWiseCpu.h", "src/Operation/OpTransformCpu.h"],
 [("copy-on-write before every in-place kernel", "src/Tensor/TensorImpl.cpp")],
 [("storage reference count", "whether the storage is shared", "src/Tensor/TensorImpl.h")], ["element values of all live tensors"])

prop("C03", "Shape changes keep every element and refuse impossible shapes",
 "Reshape, view, flatten, unflatten, squeeze and unsqueeze (with negative dimensions counted from the end and at most one inferred extent) give a tensor with the mathematically determined shape, the same element count, contiguous row-major strides and the same elements in the same row-major order. A request whose element count cannot match leaves the tensor unchanged.",
 ["inputs"], "all shapes up to the supported rank, all target shapes and all dimension arguments",
 "Tests sample a few shapes; the guarantee is about every shape including zero extents, inferred extents and negative dimensions.",
 ["src/Tensor/TensorImpl.cpp", "src/Tensor/TensorImpl.h", "src/Tensor/Tensor.cpp", "src/Function/FuncTransform.h"],
 [("shape/stride recomputation", "src/Tensor/TensorImpl.cpp")], [("shape/strides/numel", "tensor geometry", "src/Tensor/TensorImpl.h")],
 ["shape(), stride(), numel(), toList()"])

prop("C04", "Element-wise operations broadcast correctly at every element",
 "For operands whose trailing extents are equal or one, every element-wise arithmetic, comparison, logical, min/max, power, fused and unary operation (out of place and in place) yields the broadcast shape, and each result element is the scalar operation applied to exactly the operand elements that broadcasting assigns to that position. Scalars behave as tensors with one element, and inputs are left unchanged unless the operation is in place.",
 ["inputs"], "all broadcast-compatible shape pairs and triples, all element values, every element-wise operation",
 "The code chooses among several specialised loops according to the shapes; tests exercise a few shapes and so a few of those loops.",
 ["src/Operation/OpElemWiseCpu.h", "src/Operation/OpElemWiseCpu.cpp", "src/Operation/OpElemWise.h", "src/Operation/OpFusedCpu.h", "src/Tensor/TensorIterator.cpp", "src/Tensor/TensorIterator.h"],
 [("broadcast index computation and specialised loops", "src/Operation/OpElemWiseCpu.h"), ("broadcast shape/stride set-up", "src/Tensor/TensorIterator.cpp")],
 [], ["shape and elements of the result"])

prop("C05", "Rearranging operations move every element to exactly its place",
 "Permute, transpose, concatenate, stack, split, chunk, narrow, expand, repeat-interleave, lower/upper triangular selection and expansion to a larger shape give the documented result shape, and each result element equals the one input element (or zero) the operation defines for that position.",
 ["inputs"], "all ranks, extents, axes (including negative), sizes and offsets",
 "Index arithmetic is a formula over extents: tests sample two or three shapes while the claim is for every shape and axis.",
 ["src/Operation/OpTransform.cpp", "src/Operation/OpTransformCpu.h", "src/Operation/OpTransform.h"],
 [("index computations of the layout kernels", "src/Operation/OpTransformCpu.h")], [], ["shape and elements of the result"])

prop("C06", "Indexing, gather and scatter touch exactly the addressed elements",
 "Indexing by position or by index tensor, index selection, gather and scatter read exactly the addressed source elements, and index assignment and scatter write exactly the addressed destination elements, leaving all others as they were; negative positions count from the end. This also holds when the indexed tensor is itself a view into a larger tensor.",
 ["inputs", "programs"], "all shapes, all in-range index combinations, sources that are views",
 "Tests use small contiguous tensors starting at offset zero; the claim needs all shapes, index patterns and view offsets.",
 ["src/Operation/OpTransform.cpp", "src/Operation/OpTransformCpu.h", "src/Tensor/Tensor.cpp"],
 [("offset computation for index tuples", "src/Operation/OpTransform.cpp"), ("gather/scatter/index kernels", "src/Operation/OpTransformCpu.h")],
 [], ["elements read and written"])

prop("C07", "Reductions combine exactly the elements of their slice",
 "Sum, mean, min, max, all/any-style and variance reductions over the whole tensor, one dimension or several dimensions (negative allowed, dimension kept or dropped) return the prescribed shape, and each result element is the reduction of exactly the elements of its slice. Arg-min and arg-max give the first position at which the extremal value of the slice occurs.",
 ["inputs"], "all shapes, dimension sets and element values (finite and infinite)",
 "Slices are computed by stride arithmetic with special cases for first/last dimension; tests sample a few shapes and only finite values.",
 ["src/Operation/OpReduce.cpp", "src/Operation/OpReduceCpu.h", "src/Operation/OpReduceCpu.cpp", "src/Operation/OpReduce.h"],
 [("strided slice traversal", "src/Operation/OpReduceCpu.h")], [], ["shape and elements of the result"])

prop("C08", "Matrix products compute every entry from the right row and column",
 "Dot, matrix-vector, matrix-matrix and batched matrix products (with either operand transposed and with broadcast batch extents) return the prescribed shape, and every entry is the sum over the inner extent of the products of the matching row and column entries. One-dimensional operands are treated as a row on the left and a column on the right, and the added extent is removed.",
 ["inputs"], "all operand ranks and extents, both transposition flags, all batch broadcasts",
 "Transposition flags, vector operands and batch broadcast combine into many index formulas of which tests sample a few.",
 ["src/Operation/OpLinalg.cpp", "src/Operation/OpLinalgCpu.h", "src/Operation/OpLinalgCpu.cpp", "src/Operation/OpLinalg.h"],
 [("general matrix multiply loops", "src/Operation/OpLinalgCpu.h"), ("batch offset computation", "src/Operation/OpLinalg.cpp")], [], ["shape and elements of the result"])

prop("C09", "Convolution and pooling read exactly the window they define",
 "Patch extraction places each input element (or zero for padding) at exactly the positions its windows define, folding back adds exactly those positions, and two-dimensional convolution and max pooling return the prescribed output extents with every output computed from exactly its own window, channel and batch entry.",
 ["inputs"], "all batch/channel/image extents, kernel sizes, strides and paddings for which the window fits",
 "Tests use one channel or one output position, which hides layout errors; the claim quantifies over all extents, strides and paddings.",
 ["src/Operation/OpNNLayerCpu.h", "src/Operation/OpNNLayer.cpp", "src/Function/FuncNNLayer.h"],
 [("im2col/col2im loops", "src/Operation/OpNNLayerCpu.h")], [], ["shape and elements of the result"])

prop("C10", "Normalisation, softmax and rotary layers work row by row",
 "Softmax, log-softmax, layer normalisation, RMS normalisation, rotary position embedding and dropout compute each row (or head position) only from that row's own inputs and the shared parameters by the documented formula, at every leading extent and every dimension argument. Softmax rows are non-negative and sum to one.",
 ["inputs"], "all shapes, dimension arguments and finite element values",
 "Row offsets come from stride arithmetic over all extents; tests sample single small shapes.",
 ["src/Operation/OpNNLayerCpu.h", "src/Operation/OpNNLayer.cpp", "src/Function/FuncNNLayer.h"],
 [("row-wise kernels", "src/Operation/OpNNLayerCpu.h")], [], ["elements of the result"])

prop("C11", "Backward pass visits each recorded operation once, consumers first",
 "For every recorded computation, a backward pass evaluates each recorded operation reachable from the result exactly once and only after all of its consumers have contributed, and the gradient left on every leaf that requires one is the sum over all paths, added to any gradient already there. Gradients held by one tensor are never changed by the accumulation into another, and nothing is recorded while recording is switched off, whose nesting restores the previous mode.",
 ["programs", "histories"], "all acyclic computations (shared sub-expressions, diamonds, repeated operands) and nesting of recording modes",
 "Ordering and sharing faults need particular graph shapes; tests use short chains.",
 ["src/Tensor/AutogradMeta.cpp", "src/Tensor/AutogradMeta.h", "src/Tensor/Function.cpp", "src/Tensor/Function.h", "src/Tensor/NoGradGuard.cpp"],
 [("dependency count and ready queue", "src/Tensor/AutogradMeta.cpp"), ("gradient accumulation", "src/Tensor/AutogradMeta.cpp")],
 [("accumulated gradient", "sum of contributions so far", "src/Tensor/AutogradMeta.h")], ["grad() of leaves"])

prop("C12", "Every differentiable operation propagates the true derivative",
 "For each differentiable operation, the gradient delivered to each input that requires one has that input's shape and equals the upstream gradient multiplied by the derivative of the operation at the recorded inputs, summed over broadcast positions. Inputs that do not require a gradient receive none.",
 ["inputs", "programs"], "all operations, all input shapes (including broadcast ones), all points of differentiability, all upstream gradients",
 "Tests check a few operations with upstream gradient one; errors that cancel for such gradients or for equal shapes stay invisible.",
 ["src/Function/FuncElemWise.h", "src/Function/FuncActivation.h", "src/Function/FuncTransform.h", "src/Function/FuncReduce.h", "src/Function/FuncLinalg.h", "src/Function/FuncLoss.h", "src/Function/FuncNNLayer.h", "src/Function/FuncFused.h", "src/Operation/OpElemWiseCpu.h", "src/Operation/OpFusedCpu.h", "src/Operation/OpLossCpu.h"],
 [("per-operation backward rules", "src/Function/")], [], ["grad() of inputs"])

prop("C13", "Optimizers and schedulers follow their documented update rules",
 "Every optimizer step changes each parameter that has a gradient by exactly its published update rule, using state that depends only on that parameter's own past gradients and the step count, and leaves parameters without a gradient untouched. Learning-rate schedules return the prescribed rate at every step, and clearing gradients does not disturb optimizer state.",
 ["histories", "inputs", "configurations"], "all option combinations, all gradient histories, any interleaving of steps and gradient clearing",
 "Tests take one or two steps with one option set and never clear gradients between steps; momentum and moment state errors appear later.",
 ["src/Optimizer.cpp", "src/Optimizer.h", "src/Scheduler.cpp", "src/Scheduler.h"],
 [("per-parameter update rules", "src/Optimizer.cpp")], [("momentum/moment buffers", "exponential averages of past gradients", "src/Optimizer.h")], ["parameter values after each step"])

prop("C14", "Saved tensors load back identically and bad files are refused",
 "Saving a set of named tensors and loading the file into tensors of the same names, types and shapes restores every element bit for bit. A file that is truncated, has a malformed header or one that does not describe the module's tensors, or refers to data outside itself is refused without reading outside the file or writing to a tensor whose type, shape or size does not match.",
 ["inputs", "fault_sequences"], "all tensor sets and names; all byte strings offered as a file",
 "No test offers a damaged file; the claim is about every byte string.",
 ["src/Serializer.cpp", "src/Serializer.h", "src/Utils/MMapUtils.cpp"],
 [("header parsing and bounds checks", "src/Serializer.cpp")], [], ["return value of load, tensor contents"])

prop("C15", "Data loading yields every sample exactly once per pass",
 "One pass over a data loader yields every index chosen by its sampler exactly once, in the sampler's order, in batches of the configured size with only the last one smaller (dropped when so configured), and the reported number of batches equals the number produced. Sequential sampling is in order and random sampling is a permutation of all indices.",
 ["inputs", "configurations"], "all dataset sizes, batch sizes, drop-last and shuffle settings",
 "Boundary batch arithmetic is a claim about every size pair; tests use none or one.",
 ["src/Data/DataLoader.h", "src/Data/Sampler.h", "src/Data/Dataset.h"],
 [("batch boundary arithmetic", "src/Data/DataLoader.h")], [], ["sequence of batches"])

prop("C16", "16-bit float conversion is exact and rounds to nearest even",
 "Every half and bfloat16 bit pattern converts to the single-precision value it denotes, and every single-precision value converts to the nearest representable 16-bit value with ties to even, overflowing to infinity and keeping sign, zero, infinity and NaN. Converting any non-NaN 16-bit value to single precision and back is the identity.",
 ["inputs"], "all 2^16 and all 2^32 bit patterns",
 "Tests sample a few values; rounding carries and subnormals are specific bit patterns.",
 ["src/Utils/Half.h", "src/Utils/BFloat16.h"], [("bit manipulation", "src/Utils/Half.h")], [], ["bits of the converted values"])

prop("C17", "Small vectors behave as ordinary sequences across inline and heap",
 "For every sequence of operations a small vector has the same length and elements as an ordinary sequence under those operations, whether its elements are stored inline or on the heap, and copies, moves and swaps never share or lose elements. Array views have exactly the elements of the sequence they were made from.",
 ["histories"], "all operation sequences crossing the inline capacity, all inline capacities",
 "The inline/heap transition depends on operation history; no test crosses it systematically.",
 ["src/Utils/VectorUtils.h"], [("inline buffer with heap spill", "src/Utils/VectorUtils.h")], [("size/capacity/data", "current storage", "src/Utils/VectorUtils.h")], ["size and elements"])

prop("C18", "Sorting, top-k, cumulative sums and sampling keep their contracts",
 "Sort returns each slice in the requested order with positions that map back to the source, top-k returns the k extremal elements of each slice with their positions, and cumulative sum gives the prefix sums of each slice, along any dimension. Multinomial sampling returns only in-range positions of non-zero weight, distinct ones when without replacement.",
 ["inputs"], "all shapes, dimensions, k and element values (ties included)",
 "Strided slices, ties and boundary k are sampled by at most one case each in tests.",
 ["src/Operation/OpSamplingCpu.h", "src/Operation/OpTransformCpu.h", "src/Operation/OpSampling.h"],
 [("per-slice traversal", "src/Operation/OpSamplingCpu.h")], [], ["returned values and positions"])

prop("C19", "Creating and filling tensors writes exactly the prescribed elements",
 "Constant fill, masked fill, arange, linspace and type-conversion operations produce the prescribed shape and element type and write exactly the prescribed value to every element addressed and to no other. Random fills stay within their documented range and, from the same seed, repeat the same sequence of draws.",
 ["inputs", "histories"], "all shapes, bounds, masks and element types; all seeds and draw sequences",
 "Tests check a few sizes; element-exactness for all sizes and seed/draw behaviour over sequences are not sampled.",
 ["src/Operation/OpFillingCpu.h", "src/Operation/OpFillingCpu.cpp", "src/Tensor/Tensor.cpp", "src/Utils/RandomGenerator.cpp", "src/Operation/OpElemWiseCpu.h"],
 [("fill kernels", "src/Operation/OpFillingCpu.h")], [("random generator state", "sequence position", "src/Utils/RandomGenerator.h")], ["elements of the created tensor"])

prop("C20", "Losses average or sum exactly the per-sample terms",
 "Mean squared error and negative log likelihood (in none, mean and sum reduction) return the prescribed shape and the exact reduction of the per-element or per-sample terms, taking for each sample the score of its own target class.",
 ["inputs"], "all batch and class counts, all targets in range, all reductions",
 "Tests use one tiny batch per loss.",
 ["src/Operation/OpLossCpu.h", "src/Operation/OpLoss.h", "src/Function/FuncLoss.h"],
 [("loss kernels", "src/Operation/OpLossCpu.h")], [], ["value of the loss"])

prop("C21", "Modules expose every parameter once and pass mode changes down",
 "A module lists each of its own and its nested modules' parameters and buffers exactly once, under distinct hierarchical names, and switching training mode, clearing gradients or changing type reaches every one of them.",
 ["programs"], "all module trees",
 "Tests use single-level modules.",
 ["src/Module/Module.h", "src/Module/Basic.cpp", "src/Module/Basic.h", "src/Module/Norm.cpp"],
 [("recursive registration", "src/Module/Module.h")], [], ["parameters(), namedStates(), module mode"])

prop("C22", "Distributed sampling partitions the dataset across ranks",
 "For every dataset size and number of ranks, the indices given to the ranks cover the dataset, are equally many on each rank, and differ between ranks only by the documented padding or dropping.",
 ["inputs", "configurations"], "all dataset sizes, rank counts, shuffle and drop-last settings",
 "The distributed code is not built or tested in this configuration at all.",
 ["src/Distributed/DistributedSampler.cpp", "src/Distributed/DistributedSampler.h"],
 [("index padding and striding", "src/Distributed/DistributedSampler.cpp")], [], ["indices per rank"])

prop("C23", "Gradient reduction across processes yields identical averages",
 "With any number of processes and any order in which gradients become ready, every process ends a backward pass with the same averaged gradients.",
 ["schedules", "configurations"], "all process counts and ready orders",
 "Needs several processes with devices; not built here.",
 ["src/Distributed/Reducer.cpp", "src/Distributed/BackendNCCL.cpp", "src/Distributed/TCPStore.cpp"],
 [("bucketed all-reduce", "src/Distributed/Reducer.cpp")], [], ["gradients on every rank"])

prop("C24", "Concurrent use of one tensor allocator is safe",
 "Threads that allocate and release tensors concurrently never receive overlapping memory.",
 ["schedules"], "all thread interleavings",
 "No test uses threads.",
 ["src/Tensor/CachedAllocator.cpp", "src/Tensor/Allocator.cpp"],
 [("allocator locking", "src/Tensor/CachedAllocator.cpp")], [], ["addresses returned"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
