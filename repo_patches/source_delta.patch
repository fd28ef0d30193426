From 98f60196c9111720dbfabceea997d25e2dd04e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 01/46] fix: count elements with 64-bit loop counters in CPU
 kernels

'auto i = 0' deduces int, so loops over more than 2^31-1 elements or rows
overflowed.
---
 src/Operation/OpLinalgCpu.h      |  2 +-
 src/Operation/OpNNLayerCpu.h     | 12 ++++++------
 src/Operation/OpTransform.cpp    |  6 +++---
 src/Operation/OpTransformCpu.cpp |  2 +-
 src/Operation/OpTransformCpu.h   |  2 +-
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Operation/OpLinalgCpu.h b/src/Operation/OpLinalgCpu.h
index 5a83028..bc7bf7d 100644
--- a/src/Operation/OpLinalgCpu.h
+++ b/src/Operation/OpLinalgCpu.h
@@ -21,7 +21,7 @@ Tensor dotOpCpuImpl(const Tensor& self, const Tensor& other) {
   T ret = 0;
   const T* selfPtr = self.dataPtr<T>();
   const T* otherPtr = other.dataPtr<T>();
-  for (auto i = 0; i < self.numel(); i++) {
+  for (int64_t i = 0; i < self.numel(); i++) {
     ret += selfPtr[i] * otherPtr[i];
   }
   return Tensor::scalar(ret, self.options().noGrad());
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..17f9004 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -191,26 +191,26 @@ Tensor normOpCpuImplDetail(const Tensor& self, IntArrayView normalizedShape, con
   const auto* biasPtr = bias.defined() ? bias.dataPtr<T>() : nullptr;
   auto* outPtr = out.dataPtr<T>();
 
-  for (auto i = 0; i < numRows; i++) {
+  for (int64_t i = 0; i < numRows; i++) {
     const T* src = inputPtr + i * dim;
     T* dst = outPtr + i * dim;
 
     if constexpr (normType == NormType::LayerNorm) {
       T mean = 0;
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         mean += src[j];
       }
       mean /= static_cast<T>(dim);
 
       T var = 0;
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         T diff = src[j] - mean;
         var += diff * diff;
       }
       var /= static_cast<T>(dim);
       T invStd = T(1) / std::sqrt(var + eps);
 
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         T normed = (src[j] - mean) * invStd;
         if (weightPtr) normed *= weightPtr[j];
         if (biasPtr) normed += biasPtr[j];
@@ -219,13 +219,13 @@ Tensor normOpCpuImplDetail(const Tensor& self, IntArrayView normalizedShape, con
     } else {
       UNUSED(biasPtr);
       T meanSquare = 0;
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         meanSquare += src[j] * src[j];
       }
       meanSquare /= static_cast<T>(dim);
       T invRms = T(1) / std::sqrt(meanSquare + eps);
 
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         T normed = src[j] * invRms;
         if (weightPtr) normed *= weightPtr[j];
         dst[j] = normed;
diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..d0390b9 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -181,7 +181,7 @@ std::vector<Tensor> splitOpImplDetail(const Tensor& self, IntArrayView sectionSi
 
   for (size_t i = 0; i < numSections; i++) {
     T* retPtr = retTensors[i].dataPtr<T>();
-    for (auto outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
+    for (int64_t outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
       int64_t srcOffset = outerIdx * dimSize * innerBlockSize + sectionOffset * innerBlockSize;
       int64_t dstOffset = outerIdx * sectionSizes[i] * innerBlockSize;
       int64_t copySize = sectionSizes[i] * innerBlockSize * sizeof(T);
@@ -249,7 +249,7 @@ std::vector<Tensor> chunkOpImpl(const Tensor& self, int64_t chunks, int64_t dim)
   std::vector<Tensor> retTensors;
 
   int64_t start = 0;
-  for (auto i = 0; i < chunks; i++) {
+  for (int64_t i = 0; i < chunks; i++) {
     int64_t end = std::min(start + splitSize, dimSize);
     int64_t currentSize = end - start;
 
@@ -273,7 +273,7 @@ std::vector<Tensor> chunkOpImpl(const Tensor& self, int64_t chunks, int64_t dim)
 
       int64_t innerBlockSize = calcBlockSize(self.shape(), dim + 1, self.dim());
       int64_t outerBlockSize = calcBlockSize(self.shape(), 0, dim);
-      for (auto outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
+      for (int64_t outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
         int64_t srcOffset = outerIdx * dimSize * innerBlockSize + start * innerBlockSize;
         int64_t dstOffset = outerIdx * currentSize * innerBlockSize;
         int64_t copySize = currentSize * innerBlockSize * sizeof(T);
diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index 13bc098..34ced62 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -12,7 +12,7 @@ template <typename SrcT, typename DstT>
 void dtypeCastCpuKernel(const void* src, void* dst, int64_t numel) {
   const SrcT* srcPtr = static_cast<const SrcT*>(src);
   DstT* dstPtr = static_cast<DstT*>(dst);
-  for (auto i = 0; i < numel; i++) {
+  for (int64_t i = 0; i < numel; i++) {
     dstPtr[i] = static_cast<DstT>(srcPtr[i]);
   }
 }
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..1b642e5 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -25,7 +25,7 @@ Tensor permuteOpCpuImpl(const Tensor& self, const IntArrayView dims) {
   const T* selfPtr = self.dataPtr<T>();
   T* retPtr = ret.dataPtr<T>();
 
-  for (auto i = 0; i < self.numel(); i++) {
+  for (int64_t i = 0; i < self.numel(); i++) {
     int64_t originIndex = 0;
     int64_t offset = i;
     for (int64_t d = 0; d < self.dim(); d++) {
-- 
2.43.0


From d8c401849f2746ed053299565081842fb48b69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 02/46] fix: sign of zero is zero on the CPU

---
 src/Operation/OpElemWiseCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..ac6bf3f 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -30,7 +30,7 @@ struct OpCpuNeg {
 struct OpCpuSign {
   template <typename T>
   static T apply(const T& a) {
-    return a > 0 ? 1 : -1;
+    return a > 0 ? 1 : (a < 0 ? -1 : 0);
   }
 };
 
-- 
2.43.0


From 2683cf30db6e28f162121c0fb510c11cf3e54c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 03/46] fix: an empty extent broadcasts against one to an empty
 extent

---
 src/Tensor/TensorIterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/TensorIterator.cpp b/src/Tensor/TensorIterator.cpp
index d7d51e7..792f8b3 100644
--- a/src/Tensor/TensorIterator.cpp
+++ b/src/Tensor/TensorIterator.cpp
@@ -81,7 +81,9 @@ bool TensorIteratorBase::broadcastShape(SizeVector& ret, const SmallVector<IntAr
         LOGE("Incompatible shapes for broadcasting");
         return false;
       }
-      dim = std::max(dim, d);
+      if (d != 1) {
+        dim = d;
+      }
     }
     ret[i] = dim;
   }
-- 
2.43.0


From dc02faba1f9c0ca7a3b37487020d05c2de195b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 04/46] fix: SmallVector arguments may refer to an element of
 the vector itself

---
 src/Utils/VectorUtils.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Utils/VectorUtils.h b/src/Utils/VectorUtils.h
index c02051c..e081541 100644
--- a/src/Utils/VectorUtils.h
+++ b/src/Utils/VectorUtils.h
@@ -122,9 +122,13 @@ class SmallVector {
   template <typename... Args>
   void pushBack(Args&&... args) {
     if (size_ == capacity_) {
+      // args may refer to an element of this vector: build the value before the elements move
+      T value(std::forward<Args>(args)...);
       grow();
+      new (data_ + size_) T(std::move(value));
+    } else {
+      new (data_ + size_) T(std::forward<Args>(args)...);
     }
-    new (data_ + size_) T(std::forward<Args>(args)...);
     size_++;
   }
 
@@ -153,14 +157,18 @@ class SmallVector {
     if (size < size_) {
       std::destroy(data_ + size, data_ + size_);
     } else if (size > size_) {
+      // value may refer to an element of this vector
+      T copy(value);
       reserve(size);
-      std::uninitialized_fill_n(data_ + size_, size - size_, value);
+      std::uninitialized_fill_n(data_ + size_, size - size_, copy);
     }
     size_ = size;
   }
 
   T* insert(T* pos, const T& value) {
     size_type idx = pos - data_;
+    // value may refer to an element of this vector
+    T copy(value);
     if (size_ == capacity_) {
       grow();
     }
@@ -169,9 +177,9 @@ class SmallVector {
       for (size_type i = size_ - 1; i > idx; i--) {
         data_[i] = std::move(data_[i - 1]);
       }
-      data_[idx] = value;
+      data_[idx] = std::move(copy);
     } else {
-      new (data_ + size_) T(value);
+      new (data_ + size_) T(std::move(copy));
     }
     size_++;
     return data_ + idx;
-- 
2.43.0


From e4a30b6aca5d1624cba4f831137bfccaa673932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 05/46] fix: bound a shared storage view by bytes, not by
 elements

---
 src/Tensor/TensorImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index b2ea842..ddcbc99 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -24,14 +24,16 @@ TensorImpl::TensorImpl(const IntArrayView shape, Options options, const std::sha
   computeNumel(numel_, shape);
   computeStrides(strides_, shape);
 
-  ASSERT(offset + nbytes() <= storage->size());
+  // offset counts elements
+  ASSERT(offset >= 0 && offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
   storageOffset_ = offset;
   storage_ = storage;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options.dtype_);
 }
 
 void TensorImpl::setStorage(const std::shared_ptr<Storage>& storage, int64_t offset) {
-  ASSERT(offset + nbytes() <= storage->size());
+  // offset counts elements
+  ASSERT(offset >= 0 && offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
   storage_ = storage;
   storageOffset_ = offset;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
-- 
2.43.0


From 7e6da98b0fd18c8f77f9fef9ecdd95da39f49d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 06/46] fix: reshape, flatten and unflatten refuse impossible
 extents and count negative dimensions from the end

---
 src/Tensor/TensorImpl.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index ddcbc99..c9b86bb 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -67,6 +67,9 @@ void TensorImpl::reshape_(const IntArrayView shape) {
       }
       inferredIdx = static_cast<int64_t>(i);
       retShape[i] = 0;
+    } else if (shape[i] < 0) {
+      LOGE("Invalid shape: negative extent");
+      return;
     } else {
       cnt *= shape[i];
       retShape[i] = shape[i];
@@ -93,15 +96,24 @@ void TensorImpl::reshape_(const IntArrayView shape) {
 }
 
 void TensorImpl::flatten_(int64_t startDim, int64_t endDim) {
+  // a scalar is flattened to one element
+  const int64_t ndim = dim() == 0 ? 1 : dim();
+  if (startDim < 0) {
+    startDim += ndim;
+  }
+  if (endDim < 0) {
+    endDim += ndim;
+  }
+  if (startDim < 0 || endDim >= ndim || startDim > endDim) {
+    LOGE("Invalid dim");
+    return;
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < startDim; i++) {
     retShape.pushBack(shape_[i]);
   }
   int64_t flattenDims = 1;
-  if (endDim < 0) {
-    endDim = dim() - 1;
-  }
-  for (int64_t i = startDim; i <= endDim; i++) {
+  for (int64_t i = startDim; i <= endDim && i < dim(); i++) {
     flattenDims *= shape_[i];
   }
   retShape.pushBack(flattenDims);
@@ -116,6 +128,10 @@ void TensorImpl::unflatten_(int64_t d, const IntArrayView shape) {
   if (d < 0) {
     d += dim();
   }
+  if (d < 0 || d >= dim()) {
+    LOGE("Invalid dim");
+    return;
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < d; i++) {
     retShape.pushBack(shape_[i]);
@@ -123,6 +139,10 @@ void TensorImpl::unflatten_(int64_t d, const IntArrayView shape) {
   int64_t unflattenDims = 1;
   int64_t inferredIdx = -1;
   for (size_t i = 0; i < shape.size(); i++) {
+    if (shape[i] < -1 || (shape[i] == -1 && inferredIdx >= 0)) {
+      LOGE("Invalid shape");
+      return;
+    }
     if (shape[i] == -1) {
       inferredIdx = d + static_cast<int64_t>(i);
       retShape.pushBack(0);
-- 
2.43.0


From 68881b6c1b01778ad67fbee289f2d3f32e95000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 07/46] fix: index views start at the tensor's own offset and
 indexSelect counts negative positions from the end

---
 src/Operation/OpTransform.cpp  | 2 +-
 src/Operation/OpTransformCpu.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index d0390b9..f21f80b 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 1b642e5..de57422 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -373,7 +373,8 @@ Tensor indexSelectOpCpuImpl(const Tensor& self, int64_t dim, const Tensor& index
     int64_t selfOffset = 0;
     for (int64_t d = 0; d < ndim; d++) {
       if (d == dim) {
-        selfOffset += indexPtr[counter[d]] * self.stride(d);
+        auto idx = indexPtr[counter[d]];
+        selfOffset += (idx >= 0 ? idx : idx + self.shape(d)) * self.stride(d);
       } else {
         selfOffset += counter[d] * self.stride(d);
       }
-- 
2.43.0


From 0da66aa3324e27fecd2fe773f11db4a848d035f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 08/46] fix: expand refuses extents that differ from a non-unit
 input extent

---
 src/Operation/OpTransformCpu.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index de57422..6f6a192 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -312,6 +312,10 @@ Tensor expandOpCpuImpl(const Tensor& self, IntArrayView sizes) {
     }
   }
 
+  for (int64_t i = 0; i < inDim; i++) {
+    ASSERT(self.shape(i) == 1 || self.shape(i) == retShape[outDim - inDim + i]);
+  }
+
   auto ret = Tensor::empty(retShape, self.options().noGrad());
   if (self.isScalar()) {
     op::fillOffset(ret, self, 0, ret.numel());
-- 
2.43.0


From dc8660c45c1ddf9c087e48bc48b0416828315a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 09/46] fix: copy on write before out-parameter, indexed and
 copying writes

---
 src/Operation/OpElemWiseCpu.h  | 1 +
 src/Operation/OpNNLayerCpu.h   | 1 +
 src/Operation/OpTransformCpu.h | 1 +
 src/Tensor/Tensor.cpp          | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index ac6bf3f..a8bb948 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 17f9004..23bdd8f 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -17,6 +17,7 @@ template <typename T, SoftmaxType type>
 void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
   auto info = getSoftmaxDimInfo(self, dim);
+  out.copyOnWrite();
 
   const T* selfPtr = self.dataPtr<T>();
   T* outPtr = out.dataPtr<T>();
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 6f6a192..024b94d 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -147,6 +147,7 @@ void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Ten
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..9121750 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -133,6 +133,7 @@ void Tensor::copy_(const Tensor &src) {
   ASSERT(src.defined() && this->defined());
   ASSERT(src.shape() == this->shape());
   ASSERT(src.dtype() == this->dtype());
+  copyOnWrite();
   int64_t nbytes = numel() * static_cast<int64_t>(dtypeSize(dtype()));
   Storage::copyOnDevice(this->dataPtr<>(), this->device(), src.dataPtr<>(), src.device(), nbytes);
 }
-- 
2.43.0


From 326bc423fd4136f7c259cd79d8b97ba2d37c5a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 10/46] fix: loading refuses truncated and out-of-range headers
 and copies on write, saving reports write failures

---
 src/Serializer.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..2a45106 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -74,6 +74,10 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
+  if (!ofs) {
+    LOGE("Error write file: %s", path.c_str());
+    return false;
+  }
   return true;
 }
 
@@ -85,9 +89,18 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   }
 
   const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
+  const size_t fileSize = mappingResult.fileSize;
   size_t offset = 0;
 
+  // whether len more bytes follow the current offset
+  auto canRead = [&](uint64_t len) { return len <= fileSize - offset; };
+
   // read header
+  if (!canRead(3 * sizeof(uint64_t))) {
+    LOGE("Truncated header in file: %s", path.c_str());
+    MMapUtils::unmapFile(mappingResult);
+    return false;
+  }
   uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
   offset += sizeof(magic);
 
@@ -118,9 +131,21 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   ankerl::unordered_dense::set<std::string> fileKeys;
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
+    if (!canRead(sizeof(TensorHeader))) {
+      LOGE("Truncated tensor header in file: %s", path.c_str());
+      success = false;
+      break;
+    }
     const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
     offset += sizeof(TensorHeader);
 
+    if (!canRead(header->nameLength) || header->ndim > MAX_TENSOR_DIM ||
+        !canRead(header->nameLength + header->ndim * sizeof(int64_t))) {
+      LOGE("Invalid tensor header in file: %s", path.c_str());
+      success = false;
+      break;
+    }
+
     std::string name(dataPtr + offset, header->nameLength);
     offset += header->nameLength;
     fileKeys.insert(name);
@@ -167,13 +192,14 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
+    if (header->dataOffset > fileSize || header->dataSize > fileSize - header->dataOffset) {
       LOGE("Tensor data out of file range: %s", name.c_str());
       success = false;
       continue;
     }
 
     // copy data
+    tensor->copyOnWrite();
     const void* tensorDataPtr = dataPtr + header->dataOffset;
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
                           static_cast<int64_t>(header->dataSize));
-- 
2.43.0


From 1bbd76397e117dde4cfb87ffbfe68e570fe2805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 11/46] fix: minimum and maximum of infinite elements start
 from infinity

---
 src/Operation/OpReduceCpu.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 77be05e..e22275f 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -24,7 +24,7 @@ struct OpCpuReduceMin {
 
   template <typename T>
   static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
   }
 };
 
@@ -41,7 +41,8 @@ struct OpCpuReduceMax {
 
   template <typename T>
   static T defaultVal() {
-    return -std::numeric_limits<T>::max();
+    return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity()
+                                                : std::numeric_limits<T>::lowest();
   }
 };
 
-- 
2.43.0


From c3ca3f07f6f5a2e7612004ea577cab02b52d3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 12/46] fix: reductions of a scalar return a tensor of their
 own

---
 src/Operation/OpReduceCpu.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index e22275f..b10d081 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -183,9 +183,6 @@ Tensor ReducerCpu::reduceMultiDim(const Tensor &t, const IntArrayView dims, bool
 
 template <typename T, typename OP>
 Tensor reduceOpAllCpuImpl(const Tensor &t) {
-  if (t.isScalar()) {
-    return t;
-  }
   auto ret = Tensor::empty({}, t.options().noGrad());
   const T *tPtr = t.dataPtr<T>();
   T *retPtr = ret.dataPtr<T>();
@@ -208,7 +205,7 @@ Tensor reduceOpArgMinMaxCpuImpl(const Tensor &t) {
 template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims = false) {
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {reduceOpAllCpuImpl<T, OP>(t), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCpu::reduceIdxDim<T, OP>(t, dim, keepDims);
 }
@@ -216,7 +213,7 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   }
   ASSERT(!dims.empty());
   return ReducerCpu::reduceMultiDim<T>(t, dims, keepDims, [](T *retPtr, const T *tPtr, int64_t retIdx, int64_t srcIdx) {
@@ -236,9 +233,6 @@ Tensor reduceOpSumCpuImpl(const Tensor &t) {
 
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
-  if (t.isScalar()) {
-    return t;
-  }
   auto ret = reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
   op::mulInplace(ret, Tensor::scalar(r, ret.options().noGrad()));
@@ -248,7 +242,7 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCpuImpl<T>(t, dims, keepDims);
@@ -267,7 +261,7 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceOpAllCpuImpl<T, OpCpuReduceSum>(t)};
   }
   const auto meanVal = op::mean(t);
 
@@ -293,7 +287,7 @@ template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceOpAllCpuImpl<T, OpCpuReduceSum>(t)};
   }
   ASSERT(!dims.empty());
   auto meanVal = op::meanOnDims(t, dims, true);
-- 
2.43.0


From 92f0c6028e7a9e3a01c5992c03813e9b8d86eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:22 +0000
Subject: [PATCH 13/46] fix: varMean returns a mean of the same shape as the
 variance

---
 src/Operation/OpReduceCpu.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index b10d081..c69edb3 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -8,6 +8,7 @@
 
 #include "OpElemWise.h"
 #include "OpReduce.h"
+#include "OpTransform.h"
 
 namespace tinytorch::op {
 
@@ -305,6 +306,9 @@ TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims,
       r *= reduceSize / (reduceSize - 1.f);
     }
     op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+    if (!keepDims) {
+      op::reshapeInplace(meanVal, varVal.shape());
+    }
   }
   return {varVal, meanVal};
 }
-- 
2.43.0


From 94c456a83ea581c10fd04a5f020c33a82d34c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 14/46] fix: a clone made while recording is switched off does
 not require a gradient

---
 src/Tensor/Tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index 9121750..d25e4b6 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -125,6 +125,9 @@ void Tensor::backwardImpl(const Tensor &grad) const {
 Tensor Tensor::clone() const {
   Tensor ret;
   ret.impl_ = std::make_shared<TensorImpl>(*this->impl_);
+  if (!NoGradGuard::isGradEnabled()) {
+    ret.impl_->options().requiresGrad_ = false;
+  }
   ret.initAutogradMeta();
   return ret;
 }
-- 
2.43.0


From 527de4b7d8a66fff62864489959e98e28916d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 15/46] fix: an accumulated gradient is a tensor of its own

---
 src/Tensor/AutogradMeta.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e7925d7..d4f5dc3 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -30,7 +30,8 @@ void AutogradMeta::addGrad(const Tensor &grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = grad;
+    // later accumulation must not reach the tensor the gradient came from
+    grad_ = grad.clone();
   }
 }
 
@@ -38,7 +39,7 @@ void AutogradMeta::addGrad(Tensor &&grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = std::move(grad);
+    grad_ = grad.clone();
   }
 }
 
-- 
2.43.0


From 495f746ad0a82a2584e8e2e074428c89ffee3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 16/46] fix: a backward pass does not add the gradients an
 earlier pass left on intermediate results

---
 src/Tensor/AutogradMeta.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index d4f5dc3..eb925df 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -68,7 +68,17 @@ void AutogradMeta::backward(const Tensor &grad) {
     buildBackwardGraph();
   }
 
-  addGrad(grad);
+  const Tensor seed = grad;  // may be the gradient held here
+  // what an earlier pass left on intermediate results is not part of this pass
+  for (auto &fn : backwardGraph_) {
+    auto owner = fn->weakOwner.lock();
+    ASSERT(owner != nullptr);
+    if (!owner->isLeaf()) {
+      owner->grad_ = {};
+    }
+  }
+
+  addGrad(seed);
   for (auto &currFunc : backwardGraph_) {
     auto owner = currFunc->weakOwner.lock();
     ASSERT(owner != nullptr);
-- 
2.43.0


From d1fd7feb09dad4601e3df30a1e5a5a102f9cfca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 17/46] fix: a gradient with extra leading unit extents takes
 the input's shape

---
 src/Function/FuncElemWise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 0ccbec0..1da7a59 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -28,7 +28,7 @@ static Tensor reduceGrad(const Tensor& self, const Tensor& grad) {
   }
 
   if (dims.empty()) {
-    return grad;
+    return self.shape() == grad.shape() ? grad : op::reshape(grad, self.shape());
   }
 
   auto ret = op::sumOnDims(grad, dims, true);
-- 
2.43.0


From 3594710342d4cdd06f8931327d0e62a292b58b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 18/46] fix: the gradient of sub takes the factor of the second
 operand

---
 src/Function/FuncElemWise.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 1da7a59..252cacd 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -90,6 +90,9 @@ class FuncAdd : public Function<FuncAdd> {
 class FuncSub : public Function<FuncSub> {
  public:
   static Tensor forward(AutogradContext* ctx, const Tensor& self, const Tensor& other, const Scalar& alpha) {
+    if (ctx) {
+      ctx->pushData(alpha.to<float>());
+    }
     return op::sub(self, other, alpha);
   }
 
@@ -101,7 +104,8 @@ class FuncSub : public Function<FuncSub> {
       self.addGrad(reduceGrad(self, grad));
     }
     if (other.requiresGrad()) {
-      other.addGrad(reduceGrad(other, op::neg(grad)));
+      auto alpha = ctx->savedData.front().toFloat();
+      other.addGrad(reduceGrad(other, op::mul(grad, Tensor::scalar(-alpha, grad.options().noGrad()))));
     }
   }
 };
-- 
2.43.0


From aa5a6377faeb530cd878c10c268cc6aa68317a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 19/46] fix: the gradient of permute is permuted back

---
 src/Function/FuncTransform.h | 41 +++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index 5afc356..90cad9a 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -30,10 +30,45 @@ DEFINE_TRANSFORM_FUNCTION(FuncReshape, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncView, (AutogradContext * ctx, const Tensor& self, const IntArrayView shape),
                           return op::view(self, shape););
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermute, (AutogradContext * ctx, const Tensor& self, const IntArrayView dims),
-                          return op::permute(self, dims););
+class FuncPermute : public Function<FuncPermute> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self, const IntArrayView dims) {
+    if (ctx) {
+      std::vector<IValue> saved;
+      for (auto d : dims) {
+        saved.emplace_back(d < 0 ? d + self.dim() : d);
+      }
+      ctx->pushData(saved);
+    }
+    return op::permute(self, dims);
+  }
+
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      const auto& saved = ctx->savedData.front().toList();
+      SizeVector inverse(saved.size(), 0);
+      for (size_t i = 0; i < saved.size(); i++) {
+        inverse[saved[i].toInt64()] = static_cast<int64_t>(i);
+      }
+      self.addGrad(op::permute(grad, inverse));
+    }
+  }
+};
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermuteAll, (AutogradContext * ctx, const Tensor& self), return op::permuteAll(self););
+class FuncPermuteAll : public Function<FuncPermuteAll> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self) { return op::permuteAll(self); }
+
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      self.addGrad(op::permuteAll(grad));
+    }
+  }
+};
 
 DEFINE_TRANSFORM_FUNCTION(FuncFlatten,
                           (AutogradContext * ctx, const Tensor& self, int64_t startDim = 0, int64_t endDim = -1),
-- 
2.43.0


From a2deb7c54ef1a861f2e9bc7ed5e1facbea9ed6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 20/46] fix: the gradient of a linear layer for inputs of one
 or more than two dimensions

---
 src/Function/FuncNNLayer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 1003673..4ec6aae 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -30,11 +30,13 @@ class FuncLinear : public Function<FuncLinear> {
     if (input.requiresGrad()) {
       input.addGrad(op::matmul(grad, weight, false, false));
     }
+    // one row per leading position
+    auto rows = [](const Tensor& t) { return op::reshape(t, IntArrayView{-1, t.shape().back()}); };
     if (weight.requiresGrad()) {
-      weight.addGrad(op::matmul(grad, input, true, false));
+      weight.addGrad(op::matmul(rows(grad), rows(input), true, false));
     }
     if (bias.defined() && bias.requiresGrad()) {
-      bias.addGrad(op::sumOnDim(grad, 0, false));
+      bias.addGrad(op::sumOnDim(rows(grad), 0, false));
     }
   }
 };
-- 
2.43.0


From c0e5523c69f117c2d4479fe7ddd8888e07f85717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 21/46] fix: convolution with several output channels puts
 every output at its own channel and position

---
 src/Function/FuncNNLayer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 4ec6aae..9e4275d 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -169,6 +169,9 @@ class FuncConv2D : public Function<FuncConv2D> {
       ASSERT(bias.shape()[0] == outChannels);
       op::addInplace(ret, bias, 1);
     }
+    // rows are positions, columns are channels
+    ret.reshape_({batch, outH * outW, outChannels});
+    ret = op::permute(ret, IntArrayView{0, 2, 1});
     ret.reshape_({batch, outChannels, outH, outW});
 
     if (ctx) {
@@ -190,7 +193,9 @@ class FuncConv2D : public Function<FuncConv2D> {
     auto stride = ctx->popData().toDim2D();
     auto padding = ctx->popData().toDim2D();
 
-    auto gradW = op::reshape(grad, IntArrayView{-1, outChannels});
+    auto gradW = op::reshape(grad, IntArrayView{grad.shape()[0], outChannels, -1});
+    gradW = op::permute(gradW, IntArrayView{0, 2, 1});
+    gradW.reshape_({-1, outChannels});
     auto colW = op::reshape(weight, IntArrayView{outChannels, -1});
 
     if (input.requiresGrad()) {
-- 
2.43.0


From 790fd5260dbf7915d29f2aa213ca444a62579314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 22/46] fix: max pooling of several channels puts every output
 at its own channel and position

---
 src/Function/FuncNNLayer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 9e4275d..81a9edd 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -96,7 +96,10 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto maxRet = op::maxOnDim(col, 1, false);
     auto maxIndices = maxRet.second;
 
+    // rows are positions, columns are channels
     auto output = maxRet.first;
+    output.reshape_({batch, outH * outW, channels});
+    output = op::permute(output, IntArrayView{0, 2, 1});
     output.reshape_({batch, channels, outH, outW});
 
     if (ctx) {
@@ -133,7 +136,10 @@ class FuncMaxPool : public Function<FuncMaxPool> {
 
       auto gradCol = Tensor::zeros({grad.numel(), kernel.h * kernel.w}, input.options().noGrad());
       auto idx = Tensor::arange<int64_t>(0, grad.numel(), 1, input.options().noGrad());
-      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, grad);
+      auto gradRows = op::reshape(grad, IntArrayView{batch, channels, outH * outW});
+      gradRows = op::permute(gradRows, IntArrayView{0, 2, 1});
+      gradRows.reshape_({-1});
+      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, gradRows);
       gradCol.reshape_({batch * outH * outW, channels * kernel.h * kernel.w});
       auto inputGrad = op::col2im(gradCol, shape, kernel, stride, padding);
       // TODO fuse
-- 
2.43.0


From 086a5d3d6a84f5162e323d8dc8f58c0856490aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 23/46] fix: max pooling does not take the padding for an
 element

---
 src/Function/FuncNNLayer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 81a9edd..69a9afb 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -91,6 +91,11 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;
 
     auto col = op::im2col(input, kernel, stride, padding);
+    if (padding.h > 0 || padding.w > 0) {
+      // padding never is the maximum
+      auto inside = op::im2col(Tensor::onesLike(input, input.options().noGrad()), kernel, stride, padding);
+      op::fillMaskedInplace(col, inside == 0, -std::numeric_limits<float>::infinity());
+    }
     col.reshape_({-1, kernel.h * kernel.w});
 
     auto maxRet = op::maxOnDim(col, 1, false);
-- 
2.43.0


From 581f90336e9046c6665f2feff5e59c579c0d71aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 24/46] fix: the gradient of the squared error for broadcast
 operands

---
 src/Function/FuncLoss.h   | 3 ++-
 src/Operation/OpLossCpu.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncLoss.h b/src/Function/FuncLoss.h
index 1f54ca7..f485f31 100644
--- a/src/Function/FuncLoss.h
+++ b/src/Function/FuncLoss.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include "FuncElemWise.h"
 #include "Operations.h"
 #include "Tensor/Function.h"
 
@@ -28,7 +29,7 @@ namespace tinytorch::function {
       auto reduction = ctx->popData().toEnum<LossReduction>();                                                        \
                                                                                                                       \
       if (input.requiresGrad()) {                                                                                     \
-        input.addGrad(BACKWARD_OP(grad, input, target, reduction));                                                   \
+        input.addGrad(reduceGrad(input, BACKWARD_OP(grad, input, target, reduction)));                                \
       }                                                                                                               \
       ASSERT(!target.requiresGrad());                                                                                 \
     }                                                                                                                 \
diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 4c10b25..5acaec3 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
-- 
2.43.0


From 3e97e4da05adecf0685d60b23a76c64839fc95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 25/46] fix: the gradient of the negative log likelihood is
 multiplied by the upstream gradient

---
 src/Operation/OpLossCpu.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 5acaec3..6771c10 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -79,15 +79,16 @@ Tensor nllLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
-
+  // one upstream gradient per sample, or one for all
+  Tensor sampleGrad = op::neg(grad);
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(batchSize, out.options().noGrad()));
+      op::divInplace(sampleGrad, Tensor::scalar(batchSize, out.options().noGrad()));
       break;
     default:
       break;
   }
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, sampleGrad);
   // TODO fuse
   return out;
 }
-- 
2.43.0


From a043ca49c59ea2d1353b46edf1a2bb8df3cfdf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 26/46] fix: centered RMSprop divides by the square root of the
 variance

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b3c4a11..e09b73f 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -134,7 +134,7 @@ void RMSprop::doStep() {
     if (centered_) {
       auto &g = gradAvg_[i];
       g = alpha_ * g + (1.f - alpha_) * grad;
-      avg = v - g * g;
+      avg = (v - g * g).sqrt();
     } else {
       avg = v.sqrt();
     }
-- 
2.43.0


From c7f679acb947bf2867a3277233f617f53fad9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 27/46] fix: the momentum buffer is not the parameter's
 gradient

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index e09b73f..57c6ee8 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -69,7 +69,7 @@ void SGD::doStep() {
     }
     if (momentum_ != 0.f) {
       auto &buf = momentumBuffer_[i];
-      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad;
+      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad.clone();
       if (nesterov_) {
         grad += momentum_ * buf;
       } else {
-- 
2.43.0


From 03bd27e71e99a06b2e689549cf1b48b379cd55c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 28/46] fix: AdamW leaves parameters without a gradient
 untouched

---
 src/Optimizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 57c6ee8..9f3bae3 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -215,8 +215,11 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
-  *param *= (1.f - lr_ * weightDecay_);
-  return param->grad();
+  auto ret = param->grad();
+  if (ret.defined()) {
+    *param *= (1.f - lr_ * weightDecay_);
+  }
+  return ret;
 }
 
 }  // namespace tinytorch::optim
-- 
2.43.0


From 65f55186cda164ac586edd9c79506059bb84c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 29/46] fix: batched matrix products look up the batch extent
 of the right dimension

---
 src/Operation/OpLinalg.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..bc9c708 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -8,6 +8,16 @@
 
 namespace tinytorch::op {
 
+inline SizeVector makePaddedShape(const IntArrayView &shape, int64_t targetDim) {
+  auto srcSize = static_cast<int64_t>(shape.size());
+  SizeVector result(std::max(srcSize, targetDim), 1);
+  auto offset = static_cast<int64_t>(result.size()) - srcSize;
+  for (int64_t i = 0; i < srcSize; i++) {
+    result[offset + i] = shape[i];
+  }
+  return result;
+}
+
 inline SizeVector makePaddedStrides(const IntArrayView &strides, int64_t targetDim) {
   auto srcSize = static_cast<int64_t>(strides.size());
   if (srcSize >= targetDim) {
@@ -149,6 +159,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
     SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
     SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
+    SizeVector aShape = makePaddedShape(shapeA, retTensor.dim());
+    SizeVector bShape = makePaddedShape(shapeB, retTensor.dim());
 
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
@@ -165,10 +177,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         for (auto i = retDimCnt - 3; i >= 0; i--) {
           int64_t index = tmp % retShape[i];
           tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
+          if (aShape[i] != 1) {
             aOffset += index * aStrides[i];
           }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
+          if (bShape[i] != 1) {
             bOffset += index * bStrides[i];
           }
         }
@@ -208,10 +220,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       for (auto i = retDimCnt - 3; i >= 0; i--) {
         int64_t index = tmp % retShape[i];
         tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
+        if (aShape[i] != 1) {
           aOffset += index * aStrides[i];
         }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
+        if (bShape[i] != 1) {
           bOffset += index * bStrides[i];
         }
       }
-- 
2.43.0


From 34206590df6860f5e3c06493cd8f3e0dad561c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 30/46] fix: batched products of one-dimensional operands
 remove the added extent

---
 src/Operation/OpLinalg.cpp | 48 +++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index bc9c708..4841d9b 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -105,6 +105,24 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
   retShape[retDimCnt - 1] = n;
   Tensor retTensor = Tensor::empty(retShape, a.options().noGrad());
 
+  // an extent added to a one-dimensional operand is not part of the result
+  auto removeAddedDims = [&]() {
+    if (!prependA && !appendB) {
+      return;
+    }
+    SizeVector outShape;
+    for (int64_t i = 0; i < retDimCnt - 2; i++) {
+      outShape.pushBack(retShape[i]);
+    }
+    if (!prependA) {
+      outShape.pushBack(m);
+    }
+    if (!appendB) {
+      outShape.pushBack(n);
+    }
+    retTensor.reshape_(outShape);
+  };
+
   const T *selfPtr = a.dataPtr<T>();
   const T *otherPtr = b.dataPtr<T>();
   T *retPtr = retTensor.dataPtr<T>();
@@ -145,14 +163,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         gemmStridedBatched(retPtr, selfPtr, otherPtr, m, k, n, strideA, strideB, strideC, batchSize, transA, transB,
                            a.device().index);
 
-        // reduce dimension if necessary
-        if (appendB) {
-          if (prependA) {
-            retTensor.reshape_({});
-          } else {
-            retTensor.reshape_({m});
-          }
-        }
+        removeAddedDims();
         return retTensor;
       }
     }
@@ -201,14 +212,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
       gemmBatched(cPtrsDevice, aPtrsDevice, bPtrsDevice, m, k, n, batchSize, transA, transB, a.device().index);
 
-      // reduce dimension if necessary
-      if (appendB) {
-        if (prependA) {
-          retTensor.reshape_({});
-        } else {
-          retTensor.reshape_({m});
-        }
-      }
+      removeAddedDims();
       return retTensor;
     }
 
@@ -232,19 +236,9 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
     }
   } else {
     gemm(retPtr, selfPtr, otherPtr, m, k, n, transA, transB, a.device().index);
-    if (prependA) {
-      retTensor.reshape_({n});
-    }
   }
 
-  // reduce dimension if necessary
-  if (appendB) {
-    if (prependA) {
-      retTensor.reshape_({});
-    } else {
-      retTensor.reshape_({m});
-    }
-  }
+  removeAddedDims();
 
   return retTensor;
 }
-- 
2.43.0


From 0d249c44d1b895d9fbc0f026b3eb4fa4008be204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:43 +0000
Subject: [PATCH 31/46] fix: batched matrix products of empty operands

---
 src/Operation/OpLinalg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 4841d9b..9eee967 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -43,7 +43,7 @@ SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t
     auto dim1 = t1[idx1];
     if (dim0 != dim1) {
       if (dim0 == 1 || dim1 == 1) {
-        retShape[idxRet] = std::max(dim0, dim1);  // needBroadcast
+        retShape[idxRet] = dim0 == 1 ? dim1 : dim0;  // needBroadcast
       } else {
         return {};
       }
@@ -132,7 +132,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
   if (retDimCnt > 2) {
     // batched matrix multiply with broadcasting
-    int64_t batchSize = retTensor.numel() / (m * n);
+    int64_t batchSize = 1;
+    for (int64_t i = 0; i < retDimCnt - 2; i++) {
+      batchSize *= retShape[i];
+    }
 
     // strided batched gemm
     auto gemmStridedBatched = getGemmStridedBatchedFunc<T>(a.device().type);
-- 
2.43.0


From 0788ea49eabe60dd70346066cc9ab42c77b29172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 32/46] fix: max pooling of an input without batch dimension
 returns none either

---
 src/Function/FuncNNLayer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 69a9afb..4bd677e 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -105,7 +105,11 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto output = maxRet.first;
     output.reshape_({batch, outH * outW, channels});
     output = op::permute(output, IntArrayView{0, 2, 1});
-    output.reshape_({batch, channels, outH, outW});
+    if (shape.size() == 4) {
+      output.reshape_({batch, channels, outH, outW});
+    } else {
+      output.reshape_({channels, outH, outW});
+    }
 
     if (ctx) {
       ctx->pushData(kernel);
-- 
2.43.0


From f72df0e01841bb223250483f278e1c97aa9e2930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 33/46] fix: random fills advance the generator

Each fill drew from a copy of the engine, so with a seed set all fills
(and dropout masks, samples) repeated the same numbers.
---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 23bdd8f..735f93c 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -159,7 +159,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..26597e2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From 69cdd41ec8b3f43eb332ec53f64ac6bb0acc603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 34/46] fix: attention dropout keeps elements with probability
 one minus its argument

op::dropout takes the probability of keeping an element.
---
 src/Function/FuncNNLayer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 4bd677e..b89c5e8 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -292,7 +292,7 @@ class FuncSDPAttention : public Function<FuncSDPAttention> {
     }
     attnWeight = op::softmax(attnWeight, -1);
     if (dropoutP > 0.f) {
-      attnWeight = op::dropout(attnWeight, dropoutP);
+      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
     }
     return op::matmul(attnWeight, value, false, false);
     // TODO fuse
-- 
2.43.0


From 77f92726af08c545db144f1e5037f9e8e2b31ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 35/46] fix: dropping every element gives zeros, not NaN

---
 src/Operation/OpNNLayerCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 735f93c..3290e52 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -162,7 +162,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
-    outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
+    outPtr[i] = distribution(generator) ? static_cast<T>(static_cast<float>(selfPtr[i]) / p) : static_cast<T>(0.f);
   }
   return out;
 }
@@ -173,7 +173,7 @@ Tensor dropoutMaskedOpCpuImpl(const Tensor& self, const Tensor& mask, float p) {
   auto outShape = iterator.setupBroadcast();
   ASSERT(iterator.isBroadcastOk());
   Tensor out(outShape, self.options().noGrad());
-  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return a * b / p; });
+  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return p > 0.f ? a * b / p : 0; });
   return out;
 }
 
-- 
2.43.0


From 42bbe4774b882639f8df70ec904222ac5881c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 36/46] fix: log-softmax into its own input

---
 src/Operation/OpNNLayerCpu.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 3290e52..6fc2a51 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -41,7 +41,9 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
         T e = std::exp(selfPtr[offset] - maxVal);
-        outPtr[offset] = e;
+        if constexpr (type == SoftmaxType::Softmax) {
+          outPtr[offset] = e;
+        }
         sum += e;
         offset += info.innerSize;
       }
-- 
2.43.0


From 3851d05d1a9cfb7d8b7c17fb06962bfe0d93039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 37/46] fix: multinomial sampling of tiny weights stays in
 range

---
 src/Operation/OpSamplingCpu.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 26597e2..e72e7cc 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -112,6 +112,12 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
       float r = dist(generator) * total;
       auto it = std::upper_bound(cdf.begin(), cdf.end(), r);
       int64_t idx = std::distance(cdf.begin(), it);
+      if (idx == n) {
+        // the product was rounded up to the total: take the last position of non-zero weight
+        do {
+          idx--;
+        } while (!(prob[idx] > 0));
+      }
 
       if (self.dim() == 2) {
         retPtr[b * numSamples + s] = idx;
-- 
2.43.0


From d429061d99929f1f5e7d4233361e7d92b39f5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 38/46] fix: the number of batches is exact for datasets beyond
 2^24 samples

---
 src/Data/DataLoader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..f946d47 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+      batchCnt_ = indices_.size() / batchSize + (indices_.size() % batchSize != 0 ? 1 : 0);
     }
   }
 
-- 
2.43.0


From fd63bcfd97f942ea6a26aaef3f802bba43b0d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 39/46] fix: distributed sampling of datasets beyond 2^24
 samples or smaller than the padding

---
 src/Distributed/DistributedSampler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..d5f307b 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -30,7 +30,7 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = datasetSize_ / numReplicas_ + (datasetSize_ % numReplicas_ != 0 ? 1 : 0);
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
@@ -47,9 +47,10 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    // the padding may be longer than the dataset
+    allIndices.reserve(totalSize_);
+    for (size_t i = 0; allIndices.size() < totalSize_; i++) {
+      allIndices.push_back(allIndices[i]);
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From 90a26df10a3f7a72250b88b641a25d54cfe02c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 40/46] fix: loading compares all bits of the stored element
 type

---
 src/Serializer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 2a45106..08916cb 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -176,8 +176,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header->dtype);
-    if (dtype != tensor->dtype()) {
+    if (header->dtype != static_cast<uint64_t>(tensor->dtype())) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
       continue;
-- 
2.43.0


From b736ccd9b8677390046b064155b580e701561fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 41/46] fix: arange of an integer type includes the last
 multiple of the step

---
 src/Tensor/Tensor.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index bad7ef0..9ad2f35 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <cmath>
+#include <type_traits>
 
 #include "AutogradHook.h"
 #include "Scalar.h"
@@ -327,7 +328,14 @@ Tensor::Tensor(const Array3d<T>& values) : Tensor(values, options::dtype(TypeToD
 template <typename T>
 Tensor Tensor::arange(T start, T stop, T step, Options options) {
   options.dtype(TypeToDType_v<T>);
-  auto steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  int64_t steps;
+  if constexpr (std::is_integral_v<T>) {
+    // round up: the division truncates
+    steps = static_cast<int64_t>((stop - start) / step + ((stop - start) % step != 0 ? 1 : 0));
+  } else {
+    steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  }
+  ASSERT(steps >= 0);
   Tensor ret({steps}, options);
   ret.fillLinSpace_(start, step, steps);
   return ret;
-- 
2.43.0


From df6e6ed30d95633c639eb4599332925e45770386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 42/46] fix: linspace of an integer type reaches its end

---
 src/Tensor/Tensor.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index 9ad2f35..79a3c42 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -345,6 +345,14 @@ template <typename T>
 Tensor Tensor::linspace(T start, T end, int64_t steps, Options options) {
   ASSERT(steps > 0);
   options.dtype(TypeToDType_v<T>);
+  if constexpr (std::is_integral_v<T>) {
+    // the step need not be an integer
+    std::vector<T> values(steps, start);
+    for (int64_t i = 1; i < steps; i++) {
+      values[i] = static_cast<T>(start + static_cast<double>(end - start) * i / (steps - 1));
+    }
+    return Tensor(values, options);
+  }
   T step = 0;
   if (steps > 1) {
     step = (end - start) / static_cast<T>(steps - 1);
-- 
2.43.0


From 26b6447d5ceda8a7d60b31d7a60debd0d3d91582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 43/46] fix: conversion to Bool gives one for every element
 that is not zero

---
 src/Operation/OpTransformCpu.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index 34ced62..778975e 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -13,7 +13,11 @@ void dtypeCastCpuKernel(const void* src, void* dst, int64_t numel) {
   const SrcT* srcPtr = static_cast<const SrcT*>(src);
   DstT* dstPtr = static_cast<DstT*>(dst);
   for (int64_t i = 0; i < numel; i++) {
-    dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    if constexpr (std::is_same_v<DstT, DTypeToType_t<DType::Bool>>) {
+      dstPtr[i] = static_cast<float>(srcPtr[i]) != 0.f ? 1 : 0;
+    } else {
+      dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    }
   }
 }
 
-- 
2.43.0


From 684b018a5dd325b46958978c537268a671852a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 44/46] fix: clearing gradients skips frozen parameters

---
 src/Module/Module.h | 4 +++-
 src/Optimizer.cpp   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Module/Module.h b/src/Module/Module.h
index cf436f9..e5e7157 100644
--- a/src/Module/Module.h
+++ b/src/Module/Module.h
@@ -85,7 +85,9 @@ class Module {
   virtual void zeroGrad() {
     auto allParameters = namedParameters();
     for (auto &[name, param] : allParameters) {
-      param->zeroGrad();
+      if (param->requiresGrad()) {
+        param->zeroGrad();
+      }
     }
   }
 
diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 9f3bae3..0de21a0 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -21,7 +21,9 @@ Optimizer::Optimizer(std::vector<TensorPtr> &&parameters, float lr, float weight
 
 void Optimizer::zeroGrad() const {
   for (auto &param : parameters_) {
-    param->zeroGrad();
+    if (param->requiresGrad()) {
+      param->zeroGrad();
+    }
   }
 }
 
-- 
2.43.0


From 84baf2fbc6f22816f3bd31a2a1088dd492df4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 45/46] fix: an optimizer step skips frozen parameters

---
 src/Optimizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 0de21a0..33d8caf 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -28,6 +28,9 @@ void Optimizer::zeroGrad() const {
 }
 
 Tensor Optimizer::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (!ret.defined()) {
     return ret;
@@ -217,6 +220,9 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (ret.defined()) {
     *param *= (1.f - lr_ * weightDecay_);
-- 
2.43.0


From 4ed5d556d04e36cfcaabb44a3e7c84cefcf92adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 46/46] fix: asking a tensor again for gradients keeps what is
 recorded

---
 src/Tensor/Tensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index d25e4b6..f53fe0f 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -101,7 +101,10 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
     if (gradMeta_ == nullptr) {
       gradMeta_ = std::make_unique<AutogradMeta>();
     }
-    setGradFn(fn ? fn : std::make_shared<FuncLeaf>());
+    // asking again must not cut the tensor off from what is recorded
+    if (fn || gradFn() == nullptr) {
+      setGradFn(fn ? fn : std::make_shared<FuncLeaf>());
+    }
   } else {
     gradMeta_.reset();
   }
-- 
2.43.0

