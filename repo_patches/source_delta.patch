From aee3dbcdc5aabafcecacd66228b57e5fe05cedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 01/43] fix: transpose of a temporary lost its dimensions

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a624eda..cf89225 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -416,8 +416,8 @@ auto transpose(MatrixType&& M){
         return M(dim3(idx.y, idx.x, idx.z));
     };
     auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
-    ret_val.dim_.x = M.dim().y;
-    ret_val.dim_.y = M.dim().x;
+    // M may have been moved from at this point, so only use the dimensions of the result
+    std::swap(ret_val.dim_.x, ret_val.dim_.y);
     return ret_val;
 }
 
-- 
2.43.0


From c4c001ba1492092c9303cc0c680b13125412aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 02/43] fix: matrixMultiply read the size of temporaries after
 moving them, depending on argument evaluation order

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index cf89225..1124334 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -245,8 +245,11 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
         return sum;
     };
 
+    // Get the output size before M1 and M2 are potentially moved from
+    const dim3 output_size(M1.dim().x, M2.dim().y, M1.dim().z);
+
     return GeneralMatrixOperationResult<decltype(M1), decltype(M2),decltype(getMultipliedIndex)>
-    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), dim3(M1.dim().x, M2.dim().y, M1.dim().z), getMultipliedIndex);
+    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), output_size, getMultipliedIndex);
 }
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
-- 
2.43.0


From 1817d51bc985f63b6a4efa8202fc87719e851529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 03/43] fix: dot accumulated in int and lost the fractional
 part

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 1124334..8a15f28 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -188,7 +188,7 @@ auto dot(const MatrixType1& M1, const MatrixType2& M2){
         throw MatrixSizeException(ss.str());
     }
 
-    return std::inner_product(M1.begin(), M1.end(), M2.begin(), 0);
+    return std::inner_product(M1.begin(), M1.end(), M2.begin(), CommonMatrixType<MatrixType1, MatrixType2>{});
 }
 
 template<typename MatrixType1, typename MatrixType2, typename BinaryOp>
-- 
2.43.0


From 5e87222a24735732211bbb8e5696fccabc63f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 04/43] fix: mean of a signed integer matrix with a negative
 sum was converted to unsigned

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 8a15f28..44a0464 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -465,7 +465,8 @@ auto sum(const MatrixType& M){
 
 template<typename MatrixType>
 auto mean(const MatrixType& M){
-    return sum(M) / M.size();
+    // Signed size so that a negative integer sum is not converted to unsigned
+    return sum(M) / static_cast<std::ptrdiff_t>(M.size());
 }
 
 template<typename MatrixType>
-- 
2.43.0


From 0b8f4ac496a8e5697a1eb541cfa9aea4d5375347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 05/43] fix: SimpleMatrix::abs did not compile when
 instantiated

---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ccb2b11..424affd 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -203,7 +203,7 @@ SimpleMatrix<T> SimpleMatrix<T>::abs() const {
         return *this;
     else{
         SimpleMatrix<T> out(dim_);
-        return out = std::abs(*this);
+        return out = my_cnn::abs(*this);
     }
 }
 
-- 
2.43.0


From d827bb3c73ed5e0e12b03829909f10370a2c18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 06/43] fix: iterating a matrix or view with a zero-length
 dimension ran out of bounds

---
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 2 +-
 include/cnn_from_scratch/Matrix/SubMatrixView.h  | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index d8b5ac3..8bcfafd 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -26,7 +26,7 @@ public:
     template<typename = std::enable_if_t<std::is_reference_v<MatrixType>>>
     MatrixIterator(MatrixType&& parent, dim3 idx) : 
     parent_(&parent), 
-    dim_it_(parent.dim(), idx),
+    dim_it_(parent.dim(), parent.size() == 0 ? dim3(0, 0, 0) : idx), // begin == end for empty matrices
     scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
 
     reference operator*() {
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index e5d880e..8fdaedb 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -91,15 +91,13 @@ public:
         return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() {
-        MatrixIterator<SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
     auto begin() const {
         return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() const {
-        MatrixIterator<const SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
 
 private:
-- 
2.43.0


From 72d4912614c5aee7f114d3d55a666c1871cb1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 07/43] fix: views with a negative origin or size, and at()
 with a negative index, were not refused

---
 include/cnn_from_scratch/Matrix/SubMatrixView.h | 7 +++++--
 src/SubMatrixView.tpp                           | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index 8fdaedb..c396f2a 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -34,7 +34,9 @@ public:
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
         dim3 end = start + dim;
-        if (end.x > mat_ptr_->dim().x ||
+        if (start.x < 0 || start.y < 0 || start.z < 0 ||
+            dim.x < 0 || dim.y < 0 || dim.z < 0 ||
+            end.x > mat_ptr_->dim().x ||
             end.y > mat_ptr_->dim().y ||
             end.z > mat_ptr_->dim().z)
         {
@@ -49,7 +51,8 @@ public:
     SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
     {
         dim3 end = start + dim;
-        if (end.x > other_view.dim_.x ||
+        if (start.x < 0 || start.y < 0 || start.z < 0 ||
+            end.x > other_view.dim_.x ||
             end.y > other_view.dim_.y ||
             end.z > other_view.dim_.z)
         {
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index ab0b1f2..a6322eb 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -22,7 +22,7 @@ const T& SubMatrixView<T>::operator()(const dim3& idx) const{
 
 template<typename T>
 const T& SubMatrixView<T>::at(const dim3& idx) const{
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
@@ -42,7 +42,7 @@ T& SubMatrixView<T>::operator()(const dim3& idx) {
 
 template<typename T>
 T& SubMatrixView<T>::at(const dim3& idx) {
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
-- 
2.43.0


From bd78ee9ae4a607e98d1622bc19e82d382fc3df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 08/43] fix: assigning an expression or view that refers to the
 assigned matrix gave wrong values

---
 src/SimpleMatrix.tpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 424affd..2cd67a9 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -88,10 +88,9 @@ void SimpleMatrix<T>::setEntries(std::vector<T>&& v){
 template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(MatrixType&& M){
-    dim_ = M.dim();
-    values_.resize(size());
-    std::copy(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin());
-    return *this;
+    // Evaluate completely before touching this matrix, since M might refer to it
+    SimpleMatrix<T> result(std::forward<MatrixType>(M));
+    return *this = std::move(result);
 }
 
 // ================================== //
-- 
2.43.0


From d05de6e575a43007dab9ea5ae5db2ece1b959675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 09/43] fix: in-place scalar arithmetic with an element of the
 same matrix as operand used its updated value

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 44a0464..17d8798 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -51,7 +51,7 @@ void modify(MatrixType&& M, UnaryOp op){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator+=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val += other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val += other;});
     return M;
 }
 
@@ -66,7 +66,7 @@ MatrixType& operator+=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator-=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val -= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val -= other;});
     return M;
 }
 
@@ -81,7 +81,7 @@ MatrixType& operator-=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator*=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val *= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val *= other;});
     return M;
 }
 
@@ -96,7 +96,7 @@ MatrixType& operator*=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator/=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val /= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val /= other;});
     return M;
 }
 
-- 
2.43.0


From 0928fc7d85cba1aeb6c7f7a637f16467d615ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 10/43] fix: half-turn rotation was refused for non-square
 matrices, so non-square images could not be back-propagated

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 17d8798..6c86e83 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -427,7 +427,7 @@ auto transpose(MatrixType&& M){
 template<size_t NumSteps, typename MatrixType, typename = IsMatrixBase<MatrixType>>
 auto rotate(MatrixType&& M){
     static_assert(NumSteps > 0 && NumSteps < 4);
-    if (!M.isSquare()){
+    if (NumSteps != 2 && !M.isSquare()){
         std::stringstream ss;
         ss << "Cannot rotate matrix of size " << M.dim() << " because it is not square";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From 041428bbb3ee02f144cad3ff7d1305577f3bd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 11/43] fix: activation back-propagation took the derivative at
 the layer output instead of its input

---
 include/cnn_from_scratch/Layers/Activation.h | 6 +++---
 src/Layers/Activation.cpp                    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Activation.h b/include/cnn_from_scratch/Layers/Activation.h
index 23dc990..1103130 100644
--- a/include/cnn_from_scratch/Layers/Activation.h
+++ b/include/cnn_from_scratch/Layers/Activation.h
@@ -75,16 +75,16 @@ public:
     SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input, size_t idx = 0) override;
 
     /**
-     * Return the gradient of the activation function for the given activated matrix 
+     * Return the gradient of the activation function at the given (unactivated) input matrix 
      */
-    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& activated_output) const;
+    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& input) const;
 
     /**
      * Given the loss gradient from the previous layer, return the loss gradient
      * to be propagated to subsequent layers 
      */
     SimpleMatrix<double> propagateBackward(
-        const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+        const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
         const SimpleMatrix<double>& dLdZ, size_t, bool) override;
 
     /**
diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 44701cc..9b15cb5 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -64,18 +64,18 @@ SimpleMatrix<double> Activation::propagateForward(SimpleMatrix<double>&& input,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& activated_output) const {
-    return apply(activated_output, activationGradientFunction_);
+SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& input) const {
+    return apply(input, activationGradientFunction_);
 }
 
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Activation::propagateBackward(
-    const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+    const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
     const SimpleMatrix<double>& dLdZ, size_t, bool)
 {
-    return dLdZ * activationGradient(Z);
+    return dLdZ * activationGradient(X);
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 17b6917f36c6da009f078a582e62afa035698a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 12/43] fix: a deserialized activation layer kept its previous
 activation function

---
 src/Layers/Activation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 9b15cb5..5920887 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -97,6 +97,8 @@ bool Activation::deserialize(std::istream& is) {
     std::string activation_string;
     std::getline(is, activation_string);
     activation_ = fromString(activation_string);
+    activationFunction_ = activation_functions()[activation_];
+    activationGradientFunction_ = activation_gradients()[activation_];
     return true;
 }
 
-- 
2.43.0


From 37a27d7e9f70fe124673dcea060d02c0bf785a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 13/43] fix: pooling layers saved the pool size as their stride

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 05db568..2c0ee1c 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -146,8 +146,8 @@ std::string Pooling::serialize() const {
 
     // Record the stride
     ss << "stride\n";
-    serialization::place(ss, dim_.x, "x");
-    serialization::place(ss, dim_.y, "y");
+    serialization::place(ss, stride_.x, "x");
+    serialization::place(ss, stride_.y, "y");
 
     return ss.str();
 }
-- 
2.43.0


From 6d519051ee4911b0bdf52451da6db22cf2dd26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 14/43] fix: convolution and pooling layers accepted inputs
 smaller than the filter or pool and read out of bounds

---
 include/cnn_from_scratch/Layers/Kernel.h | 3 ++-
 src/Layers/Kernel.cpp                    | 4 ++--
 src/Layers/Pooling.cpp                   | 4 ++++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index c091817..918d756 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -43,7 +43,8 @@ public:
     static SimpleMatrix<double> padInput(MatrixType&& input_data, const dim3 filter_dim);
 
     /**
-     * Ensure that the depth of the input matches the depth of the kernel 
+     * Ensure that the depth of the input matches the depth of the kernel and that the
+     * input is at least as big as the kernel
      */
     bool checkSize(const SimpleMatrix<double>& input_data) override;
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 543b936..70e56d5 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -85,7 +85,7 @@ SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter
 // ----------------------------------------------------------------------------
 
 bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
-    return input_data.dim(2) == dim_.z;
+    return input_data.dim().x >= dim_.x && input_data.dim().y >= dim_.y && input_data.dim().z == dim_.z;
 }
 
 // ----------------------------------------------------------------------------
@@ -105,7 +105,7 @@ dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
 SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data, size_t) {
     // Make sure the input size is what we expect based on weights and biases dimensions
     if (!checkSize(input_data))
-        throw ModelLayerException("Mismatched channel count for convolution");
+        throw ModelLayerException("Input size or channel count does not fit the convolution");
 
     SimpleMatrix<double> output(outputSize(input_data));
     
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 2c0ee1c..da66be7 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -45,6 +45,10 @@ dim3 Pooling::outputSize(const dim3& input_dim) const {
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, size_t batch_idx) {
+    // A pool can only be placed on an input that is at least as big
+    if (!checkSize(input))
+        throw ModelLayerException("Pooling input is smaller than the pool size");
+
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-- 
2.43.0


From fdf61ad1e1be7dff7f15d9375fb733353bf63ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 15/43] fix: convolutions with a stride other than 1 read out
 of bounds, had wrong gradients and were saved without it

---
 include/cnn_from_scratch/Layers/Kernel.h     |  7 +++++
 include/cnn_from_scratch/Matrix/MatrixMath.h | 10 +++++--
 src/Layers/Kernel.cpp                        | 30 +++++++++++++++++---
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index 918d756..400c385 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -53,6 +53,13 @@ public:
      */
     dim3 outputSize(const SimpleMatrix<double>& input_data) const;
 
+    /**
+     * Given the input and the loss gradient with respect to the output, place the elements of the
+     * gradient at the input positions that the filter visited, with zeros in between. This is the
+     * output gradient of the same convolution with a stride of 1
+     */
+    SimpleMatrix<double> spreadGradient(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY) const;
+
     /**
      * Pass the given input matrix through a convolutional filter and return the result  
      */
diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 6c86e83..4cc9453 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -257,9 +257,15 @@ auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
     // We define convolutions only for 2D matrices
     assert(M1.isFlat() && M2.isFlat());
 
+    if (M1.dim().x < M2.dim().x || M1.dim().y < M2.dim().y){
+        std::stringstream ss;
+        ss << "Cannot convolve matrix of size " << M1.dim() << " with larger matrix of size " << M2.dim();
+        throw MatrixSizeException(ss.str());
+    }
+
     const dim3 output_size(
-        M1.dim().x - M2.dim().x + 1,
-        M1.dim().y - M2.dim().y + 1,
+        (M1.dim().x - M2.dim().x)/stride.x + 1,
+        (M1.dim().y - M2.dim().y)/stride.y + 1,
         1
     );
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 70e56d5..af22d14 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -92,9 +92,10 @@ bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
 // ----------------------------------------------------------------------------
 
 dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
+    const int step = stride;
     return dim3(
-        input_data.dim(0) - dim_.x + 1,
-        input_data.dim(1) - dim_.y + 1,
+        (input_data.dim().x - dim_.x)/step + 1,
+        (input_data.dim().y - dim_.y)/step + 1,
         num_filters
     );
 }
@@ -128,9 +129,23 @@ SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
+SimpleMatrix<double> Kernel::spreadGradient(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY) const {
+    if (stride == 1) return dLdY;
+
+    SimpleMatrix<double> spread(dim3(X.dim().x - dim_.x + 1, X.dim().y - dim_.y + 1, dLdY.dim().z));
+    for (auto it = dLdY.begin(); it != dLdY.end(); ++it){
+        spread(dim3(it.idx().x*stride, it.idx().y*stride, it.idx().z)) = *it;
+    }
+    return spread;
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
 SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
+    const SimpleMatrix<double> gradient = spreadGradient(X, dLdY);
 
     // Create the output matrix
     SimpleMatrix<double> dLdW(weights.dim());
@@ -139,7 +154,7 @@ SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
 
         // Get references to the data just for this filter
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
         SubMatrixView<double>       weight_gradient = dLdW.slices(filter_idx*num_channels, num_channels);
 
         for (int channel_idx = 0; channel_idx < num_channels; channel_idx++){
@@ -160,6 +175,7 @@ SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const Simple
 SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
+    const SimpleMatrix<double> gradient = spreadGradient(X, dLdY);
 
     // Create the output matrix
     SimpleMatrix<double> dLdX(X.dim());
@@ -168,7 +184,7 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
         // Get references to the data just for this filter
         const SubMatrixView<double> filter          = weights.slices(filter_idx*num_channels, num_channels);
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
 
         // Create storage for the input gradient corresponding to this filter
         SimpleMatrix<double> filter_gradient(dLdX.dim());
@@ -227,6 +243,7 @@ std::string Kernel::serialize() const {
     serialization::place(ss, dim_.y, "y");
     serialization::place(ss, dim_.z, "z");
     serialization::place(ss, num_filters, "n");
+    if (stride != 1) serialization::place(ss, stride, "stride");
     ss << "weights\n";
     weights.serialize(ss);
     ss << "biases\n";
@@ -250,6 +267,11 @@ bool Kernel::deserialize(std::istream& is) {
     // Get the number of kernels
     num_filters = serialization::expect<unsigned>(is, "n");
 
+    // Get the stride, which is only present if it is not 1
+    stride = 1;
+    if (serialization::readLine(is).rfind("stride", 0) == 0)
+        stride = serialization::expect<unsigned>(is, "stride");
+
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
     if (!weights.deserialize(is)) return false;
-- 
2.43.0


From 3675eeb56215feecc0282da50720804cf1ca4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 16/43] fix: deserializing an empty matrix left the stream on
 the wrong line, and negative sizes were not refused

---
 src/SimpleMatrix.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 2cd67a9..90a9787 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -245,9 +245,12 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.y;
     is >> dim.z;
 
-    if (is.fail()) return false;
+    if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
     this->resize(dim);
 
+    // Newline
+    serialization::clearLine(is);
+
     // Retrieve the rows of the matrix
     for (int z = 0; z < dim.z; z++){
         for (int x = 0; x < dim.x; x++){
-- 
2.43.0


From 7fcdfccff059d291bb4748a555587091059e67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 17/43] fix: loaded fully connected layers could not
 back-propagate, and ones saved before first use could not be used

---
 src/Layers/ConnectedLayer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index eb60755..248a310 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -106,7 +106,8 @@ SimpleMatrix<double> ConnectedLayer::getdLdW(const SimpleMatrix<double>& X, cons
 SimpleMatrix<double> ConnectedLayer::getdLdX(const SimpleMatrix<double>& dLdY){
     // STIC;
     SimpleMatrix<double> dLdX = matrixMultiply(transpose(weights), dLdY);
-    dLdX.reshape(input_dim_);
+    // The input shape of a layer that was just loaded is not known yet
+    if (input_dim_.size() == dLdX.size()) dLdX.reshape(input_dim_);
     return dLdX;
 }
 
@@ -130,7 +131,11 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
     // biases  -= learning_rate * getdLdB(dLdZ);
 
     // We need to reshape the gradient to what the previous layer would be expecting
-    SimpleMatrix<double> dLdX = last_layer ? SimpleMatrix<double>() : getdLdX(dLdZ);
+    SimpleMatrix<double> dLdX;
+    if (!last_layer){
+        dLdX = getdLdX(dLdZ);
+        dLdX.reshape(X.dim());
+    }
     return dLdX;
 }
 
@@ -161,7 +166,9 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
-    initialized_ = true;
+
+    // A layer that was saved before its first use is still to be initialized
+    initialized_ = weights.size() > 0;
     return true;
 }
 
-- 
2.43.0


From 3bdbcb8b7d8162e547debd39cd52c6a1e92af26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 18/43] fix: concurrent first use of a fully connected layer
 raced on its initialization

---
 src/Layers/ConnectedLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 248a310..86355fe 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <mutex>
 #include "cnn_from_scratch/Layers/ConnectedLayer.h"
 
 namespace my_cnn{
@@ -47,6 +48,10 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
+    // Several threads may use the layer for the first time at once
+    static std::mutex init_mtx;
+    std::lock_guard<std::mutex> lock(init_mtx);
+
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-- 
2.43.0


From a8eac660f111fe8e8761c2812c735dbc9c96205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 19/43] fix: a batch that was not full applied the previous
 batch's gradients again, or failed if there were none

---
 src/Layers/ConnectedLayer.cpp | 14 ++++++++++----
 src/Layers/Kernel.cpp         | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 86355fe..c1bc70f 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -29,15 +29,21 @@ void ConnectedLayer::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the gradients stored since the last time. Not every slot has one if the batch was not full
+    size_t count = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (weight_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
-        avg_bias_grad += bias_gradients_[i];  
+        avg_bias_grad   += bias_gradients_[i];  
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
+        count++;
     }
+    if (count == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad /= bias_gradients_.size();
+    avg_weight_grad /= count;
+    avg_bias_grad   /= count;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index af22d14..3b025ef 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -50,15 +50,21 @@ void Kernel::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the gradients stored since the last time. Not every slot has one if the batch was not full
+    size_t count = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (weight_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad   += bias_gradients_[i];  
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
+        count++;
     }
+    if (count == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad   /= bias_gradients_.size();
+    avg_weight_grad /= count;
+    avg_bias_grad   /= count;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
-- 
2.43.0


From 4938d92ee81b87987913126c408de7695fab21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 20/43] fix: training threads overwrote each other's true label
 in the softmax layer

---
 include/cnn_from_scratch/Layers/Softmax.h | 17 ++++++++++++-----
 src/Layers/Softmax.cpp                    | 19 +++++++++++++------
 src/ModelDescription.tpp                  |  2 +-
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Softmax.h b/include/cnn_from_scratch/Layers/Softmax.h
index 5a6dc8f..bb80413 100644
--- a/include/cnn_from_scratch/Layers/Softmax.h
+++ b/include/cnn_from_scratch/Layers/Softmax.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <optional>
+#include <vector>
 #include "cnn_from_scratch/Serialization.h"
 #include "cnn_from_scratch/Layers/ModelLayer.h"
 
@@ -24,9 +26,14 @@ public:
     bool checkSize(const SimpleMatrix<double>& input) override;
 
     /**
-     * Inform the layer which output label is correct. Used in backpropagation
+     * Set the number of batch slots to remember the true label of
      */
-    void assignTrueLabel(size_t true_label_idx);
+    void setBatchSize(size_t batch_size) override;
+
+    /**
+     * Inform the layer which output label is correct for the given batch slot. Used in backpropagation
+     */
+    void assignTrueLabel(size_t true_label_idx, size_t batch_idx = 0);
 
     /**
      * The actual softmax function 
@@ -48,7 +55,7 @@ public:
      */
     SimpleMatrix<double> propagateBackward(
         const SimpleMatrix<double>& input, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) override;
+        const SimpleMatrix<double>&, size_t batch_idx, bool) override;
 
     /**
      * Convert the layer configuration to a standard ascii text format 
@@ -62,8 +69,8 @@ public:
     bool deserialize(std::istream& is) override;
 
 private:
-    bool knows_true_label_ = false;
-    size_t true_label_idx_;
+    // True label for each batch slot, if it is known
+    std::vector<std::optional<size_t>> true_label_idx_;
     size_t output_label_count_;
 };
     
diff --git a/src/Layers/Softmax.cpp b/src/Layers/Softmax.cpp
index 33dbd71..8371550 100644
--- a/src/Layers/Softmax.cpp
+++ b/src/Layers/Softmax.cpp
@@ -6,6 +6,7 @@ namespace my_cnn{
 // ----------------------------------------------------------------------------
 
 Softmax::Softmax(size_t output_label_count) : 
+true_label_idx_(1),
 output_label_count_(output_label_count)
 {}
 
@@ -27,15 +28,21 @@ bool Softmax::checkSize(const SimpleMatrix<double>& input) {
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-void Softmax::assignTrueLabel(size_t true_label_idx){
+void Softmax::setBatchSize(size_t batch_size) {
+    true_label_idx_.assign(batch_size, std::nullopt);
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
+void Softmax::assignTrueLabel(size_t true_label_idx, size_t batch_idx){
     if (true_label_idx >= output_label_count_){
         std::stringstream ss;
         ss << "Cannot assign true label of " << true_label_idx << " when there are only " << output_label_count_ << " labels";
         throw std::out_of_range(ss.str());
     }
 
-    true_label_idx_ = true_label_idx;
-    knows_true_label_ = true;
+    true_label_idx_.at(batch_idx) = true_label_idx;
 }
 
 // ----------------------------------------------------------------------------
@@ -75,13 +82,13 @@ SimpleMatrix<double> Softmax::getdLdX(const SimpleMatrix<double> output, size_t
 
 SimpleMatrix<double> Softmax::propagateBackward(
         const SimpleMatrix<double>&, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) 
+        const SimpleMatrix<double>&, size_t batch_idx, bool) 
 {
-    if (!knows_true_label_){
+    if (!true_label_idx_.at(batch_idx)){
         throw ModelLayerException("Cannot backpropagate softmax layer without knowledge of true label");
     }
 
-    return getdLdX(output, true_label_idx_);
+    return getdLdX(output, *true_label_idx_[batch_idx]);
 }
 
 // ----------------------------------------------------------------------------
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfb7d..cf8a740 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -199,7 +199,7 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     // Provide the label to the output layer for gradient calculations
     assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
-    output_layer->assignTrueLabel(result.true_label_idx);
+    output_layer->assignTrueLabel(result.true_label_idx, batch_idx);
 
     // For each of the layers, calculate the corresponding gradient and adjust the weights accordingly
     SimpleMatrix<double> dLdz;
-- 
2.43.0


From 19d397748473fc826645e65dd3dc770193e697d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 21/43] fix: the loss of an unknown label read out of bounds,
 and the loss function was uninitialized

---
 include/cnn_from_scratch/ModelDescription.h | 2 +-
 src/ModelDescription.tpp                    | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/ModelDescription.h b/include/cnn_from_scratch/ModelDescription.h
index ecb8bdd..af94b49 100644
--- a/include/cnn_from_scratch/ModelDescription.h
+++ b/include/cnn_from_scratch/ModelDescription.h
@@ -37,7 +37,7 @@ class ModelDescription{
 public:
     std::vector<std::shared_ptr<ModelLayer>> layers;
     std::vector<OutputDataType> output_labels;
-    LossFunction loss_function;
+    LossFunction loss_function = CROSS_ENTROPY;
 
     struct Hyperparameters{
         double learning_rate = 0;
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index cf8a740..34bb7eb 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -185,6 +185,8 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::assignLoss(ModelResults<OutputDataType>& result, OutputDataType label){
     result.true_label_idx = std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));
+    if (result.true_label_idx >= output_labels.size())
+        throw std::out_of_range("Cannot assign the loss for a label that is not an output label");
     result.true_label = label;
     result.loss = lossFcn(result.layer_inputs.back(), result.true_label_idx);
 }
-- 
2.43.0


From ddcabd15de675c3fc5fdb9ea620950f053803cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:28 +0000
Subject: [PATCH 22/43] fix: loadModel did not compile when instantiated and
 dropped activation layers

---
 src/ModelDescription.tpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 34bb7eb..5cffef1 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -96,10 +96,15 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         // Determine the type of layer coming next
         try{
             if (label == "Kernel"){
-                Kernel& K = addKernel({0, 0, 0}, 1, LINEAR);
+                Kernel& K = addKernel({0, 0, 0}, 1);
                 if (not K.deserialize(f)) return false;
             }
 
+            else if (label == "Activation"){
+                Activation& A = addActivation(LINEAR);
+                if (not A.deserialize(f)) return false;
+            }
+
             else if (label == "Pooling"){
                 Pooling& P = addPooling({0, 0}, {0, 0}, MAX);
                 if (not P.deserialize(f)) return false;
-- 
2.43.0


From 5f9021184beebc7c33ab0f03e03f6a340b40c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:28 +0000
Subject: [PATCH 23/43] fix: output labels that are empty or contain spaces
 were not loaded correctly

---
 src/ModelDescription.tpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 5cffef1..9f7329c 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -125,8 +125,13 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 std::vector<OutputDataType> labels(size);
                 for (int i = 0; i < size; i++){
                     OutputDataType label;
-                    f >> label;
-                    serialization::clearLine(f);
+                    if constexpr (std::is_same_v<OutputDataType, std::string>){
+                        // Labels can be empty or contain spaces
+                        std::getline(f, label);
+                    }else{
+                        f >> label;
+                        serialization::clearLine(f);
+                    }
                     labels[i] = label;
                 }
 
-- 
2.43.0


From a4a298f5952aabaed2810f40067d83af5e2ec705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:28 +0000
Subject: [PATCH 24/43] fix: incomplete, damaged or missing model files were
 reported as loaded, and failed saves as saved

---
 src/Layers/ConnectedLayer.cpp |  4 ++++
 src/Layers/Kernel.cpp         |  5 ++++-
 src/Layers/Pooling.cpp        |  2 +-
 src/ModelDescription.tpp      | 39 +++++++++++++++++++++++++----------
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index c1bc70f..3f498b4 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -178,6 +178,10 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
+    // Everything must fit together
+    if (weights.dim().x != stream_dim.x || weights.dim().y != stream_dim.y) return false;
+    if (weights.size() > 0 && biases.dim() != dim3(weights.dim().x, 1, 1)) return false;
+
     // A layer that was saved before its first use is still to be initialized
     initialized_ = weights.size() > 0;
     return true;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 3b025ef..faa3b48 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -286,7 +286,10 @@ bool Kernel::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
-    return true;
+    // Everything must fit together
+    return stride > 0
+        && weights.dim() == dim3(dim_.x, dim_.y, dim_.z*num_filters)
+        && biases.dim() == dim3(num_filters, 1, 1);
 }
 
 } // namespace my_cnn
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index da66be7..50a2c29 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -183,7 +183,7 @@ bool Pooling::deserialize(std::istream& is) {
     stride_.x = serialization::expect<int>(is, "x");
     stride_.y = serialization::expect<int>(is, "y");
 
-    return true;
+    return !is.fail() && dim_.x > 0 && dim_.y > 0 && stride_.x > 0 && stride_.y > 0;
 }
 
 // ----------------------------------------------------------------------------
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 9f7329c..0761bd1 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -80,7 +80,7 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
     }
     f << std::endl;
 
-    return true;
+    return f.good();
 }
 
 template<typename InputDataType, typename OutputDataType>
@@ -88,8 +88,12 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
     STIC;
     std::ifstream f(filename);
 
+    // The file is only complete with the output labels at the end
+    bool has_softmax = false;
+    bool complete = false;
+
     std::string line;
-    while (std::getline(f, line)){
+    while (not complete && std::getline(f, line)){
         // Read the next line without extracting it
         std::string label = serialization::readLine(f);
         
@@ -116,13 +120,17 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
             }
             
             else if (label == "Softmax"){
-                // Determine the number of output labels
-                serialization::clearLine(f);
                 serialization::clearLine(f);
+                has_softmax = true;
+            }
+
+            else if (label.rfind("Output labels", 0) == 0){
+                // Determine the number of output labels
                 int size = serialization::expect<int>(f, "Output labels");
+                if (f.fail()) return false;
 
                 // Load the output vector
-                std::vector<OutputDataType> labels(size);
+                std::vector<OutputDataType> labels;
                 for (int i = 0; i < size; i++){
                     OutputDataType label;
                     if constexpr (std::is_same_v<OutputDataType, std::string>){
@@ -132,21 +140,30 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                         f >> label;
                         serialization::clearLine(f);
                     }
-                    labels[i] = label;
+
+                    // Every label is followed by a newline
+                    if (f.fail() || f.eof()) return false;
+                    labels.push_back(label);
                 }
 
-                // Set the vector with softmax activation
-                setOutputLabels(labels, SOFTMAX);
+                // Set the vector, with softmax activation if there was a softmax layer
+                setOutputLabels(labels, has_softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);
+                complete = true;
+            }
+
+            else{
+                std::cout << "loadModel error: unknown layer \"" << label << "\"\n";
+                return false;
             }
         }
         
-        catch(std::runtime_error& e){
-            std::cout << "loadModel runtime error: " << e.what() << "\n";
+        catch(std::exception& e){
+            std::cout << "loadModel error: " << e.what() << "\n";
             return false;
         }
     }
 
-    return true;
+    return complete;
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From a7c14228b9af692be3fb25098b2c0768ec944b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:28 +0000
Subject: [PATCH 25/43] fix: validation threads shared one batch slot

---
 src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6a276f1..d3f17cb 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -69,6 +69,11 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
     std::atomic<int> correct_count = 0;
     std::vector<std::thread> workers(params.num_threads);
 
+    // Give each thread its own batch slot, since layers remember the last input of each slot
+    for (auto& layer : model.layers){
+        layer->setBatchSize(workers.size());
+    }
+
     // Assign work to threads
     auto start = std::chrono::steady_clock::now();
     int num_images = db.numImages();
@@ -81,7 +86,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
                 lock.unlock();
 
                 // Run forwards propagation and check result
-                my_cnn::ModelResults result = model.forwardPropagation(Data.data);
+                my_cnn::ModelResults result = model.forwardPropagation(Data.data, worker_idx);
                 correct_count += model.output_labels[result.label_idx] == std::to_string(Data.label);
             }
         });
-- 
2.43.0


From bea12076e243af1bffc3744699749704f911b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:14 +0000
Subject: [PATCH 26/43] fix: loading accepted keywords with trailing characters
 and a negative label count

---
 include/cnn_from_scratch/Serialization.h | 6 +++++-
 src/ModelDescription.tpp                 | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 77b8358..7e04a9b 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -60,7 +60,11 @@ static inline T expect(std::istream& is, const std::string& expected){
         clearLine(is);
         return output;
     }else{
-        clearLine(is);
+        // Nothing but the expected string may be on the line
+        std::getline(is, result);
+        if (result.find_first_not_of(" \t\r") != std::string::npos){
+            throw std::runtime_error("Error loading. Found \"" + result + "\" after \"" + expected + "\"");
+        }
     }
 }
 
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 0761bd1..211eb33 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -127,7 +127,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
             else if (label.rfind("Output labels", 0) == 0){
                 // Determine the number of output labels
                 int size = serialization::expect<int>(f, "Output labels");
-                if (f.fail()) return false;
+                if (f.fail() || size < 0) return false;
 
                 // Load the output vector
                 std::vector<OutputDataType> labels;
-- 
2.43.0


From abb6facd94df92d04d764effc86f3594b7abbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:14 +0000
Subject: [PATCH 27/43] fix: an out-of-range getImage no longer moves the
 reader

---
 src/MNISTReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index ed70ac3..2d90c4c 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -48,6 +48,11 @@ MNISTReader::~MNISTReader(){
 }
 
 Image MNISTReader::getImage(size_t idx){
+    // Refuse before anything is moved, so that nextImage goes on where it was
+    if (idx >= num_images_){
+        throw std::runtime_error("Cannot extract image " + std::to_string(idx) + " out of " + std::to_string(num_images_) + " images");
+    }
+
     current_index_ = idx;
 
     // Set the index for the image stream
-- 
2.43.0


From 739b6329c2022ac9c6f8e0cf92ec44ad31b77017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:52 +0000
Subject: [PATCH 28/43] fix: a missing number in a model file was taken from
 the next line, so that numeric labels could be loaded as their own count

---
 include/cnn_from_scratch/Serialization.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 7e04a9b..cd96254 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -3,6 +3,7 @@
 #include <string>
 #include <limits>
 #include <istream>
+#include <sstream>
 #include <type_traits>
 
 namespace my_cnn{
@@ -55,9 +56,12 @@ static inline T expect(std::istream& is, const std::string& expected){
     }
 
     if constexpr (!std::is_void_v<T>){
-        T output;
-        is >> output;
-        clearLine(is);
+        // The value must be on the same line
+        std::getline(is, result);
+        std::istringstream value(result);
+        T output{};
+        value >> output;
+        if (value.fail()) is.setstate(std::ios::failbit);
         return output;
     }else{
         // Nothing but the expected string may be on the line
-- 
2.43.0


From 700e8cada1d59020e4688574dfd0870a915b0212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:52 +0000
Subject: [PATCH 29/43] fix: a negative kernel stride in a model file was
 accepted as a huge one

---
 src/Layers/Kernel.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index faa3b48..68d4263 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -275,8 +275,11 @@ bool Kernel::deserialize(std::istream& is) {
 
     // Get the stride, which is only present if it is not 1
     stride = 1;
-    if (serialization::readLine(is).rfind("stride", 0) == 0)
-        stride = serialization::expect<unsigned>(is, "stride");
+    if (serialization::readLine(is).rfind("stride", 0) == 0){
+        const int stream_stride = serialization::expect<int>(is, "stride");
+        if (is.fail() || stream_stride < 1) return false;
+        stride = stream_stride;
+    }
 
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
@@ -287,8 +290,7 @@ bool Kernel::deserialize(std::istream& is) {
     if (!biases.deserialize(is)) return false;
 
     // Everything must fit together
-    return stride > 0
-        && weights.dim() == dim3(dim_.x, dim_.y, dim_.z*num_filters)
+    return weights.dim() == dim3(dim_.x, dim_.y, dim_.z*num_filters)
         && biases.dim() == dim3(num_filters, 1, 1);
 }
 
-- 
2.43.0


From c452661f26c8cccdb3c2a536d8ded5d4c0d26dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 30/43] fix: printing a matrix formatted std::cout instead of
 the given stream and reset its number format

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index addb3f2..567e423 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -135,11 +135,12 @@ template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, Mat
 std::ostream& operator<<(std::ostream& os, const MatrixType& M){
     using T = typename MatrixType::type;
 
-    int default_precision = std::cout.precision();
+    const auto default_precision = os.precision();
+    const auto default_flags = os.flags();
     int max_width = 4;
     
     if constexpr (std::is_floating_point_v<T>){
-        std::cout << std::setprecision(2) << std::fixed;
+        os << std::setprecision(2) << std::fixed;
         max_width += 3;
     }
 
@@ -156,8 +157,8 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         os << "\n";
     }
 
-    std::cout << std::setprecision(default_precision);
-    std::cout << std::defaultfloat;
+    os.precision(default_precision);
+    os.flags(default_flags);
 
     return os;
 }
-- 
2.43.0


From d74ccace3b846ed4e6f0634fd99f0eb5b1434e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 31/43] fix: in-place matrix arithmetic used already updated
 values if its operand refers to the target

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 23 ++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 4cc9453..e5ccd73 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -40,6 +40,17 @@ using MatrixStorageType = typename std::conditional_t<
     std::remove_reference_t<MatrixType>
 >;
 
+// The values of a matrix-like object which stay the same while a matrix it might refer to is being
+// modified: an actual matrix is used as it is, views and expressions are evaluated completely
+template<typename MatrixType>
+decltype(auto) evaluated(const MatrixType& M){
+    using EvaluatedType = SimpleMatrix<std::remove_cv_t<typename MatrixType::type>>;
+    if constexpr (std::is_same_v<MatrixType, EvaluatedType>)
+        return (M);
+    else
+        return EvaluatedType(M);
+}
+
 // ================================================================================================
 // Self modification math
 // ================================================================================================
@@ -58,8 +69,9 @@ MatrixType& operator+=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator+=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluated(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it += std::forward<Other>(other)(it.idx());
+        *it += values(it.idx());
     }
     return M;
 }
@@ -73,8 +85,9 @@ MatrixType& operator-=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator-=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluated(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it -= std::forward<Other>(other)(it.idx());
+        *it -= values(it.idx());
     }
     return M;
 }
@@ -88,8 +101,9 @@ MatrixType& operator*=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator*=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluated(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it *= std::forward<Other>(other)(it.idx());
+        *it *= values(it.idx());
     }
     return M;
 }
@@ -103,8 +117,9 @@ MatrixType& operator/=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator/=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluated(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it /= std::forward<Other>(other)(it.idx());
+        *it /= values(it.idx());
     }
     return M;
 }
-- 
2.43.0


From 41d9fa35bcfe1af276ed3bd9d722562d7b554427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 32/43] fix: assigning to a view from an overlapping view or
 expression used already written values

---
 src/SubMatrixView.tpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index a6322eb..cbb0a20 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -71,14 +71,18 @@ template<typename T>
 template<typename Other, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<Other>>, bool>>
 SubMatrixView<T>& SubMatrixView<T>::operator=(Other&& M){
     checkSize(*this, M);
-    std::copy(std::forward<Other>(M).begin(), std::forward<Other>(M).end(), this->begin());
+    // Evaluate completely before writing, since M might refer to the region being written
+    const auto& values = evaluated(M);
+    std::copy(values.begin(), values.end(), this->begin());
     return *this;
 }
 
 template<typename T>
 SubMatrixView<T>& SubMatrixView<T>::operator=(const SubMatrixView<T>& M){
     checkSize(*this, M);
-    std::copy(M.begin(), M.end(), this->begin());
+    // Evaluate completely before writing, since M might overlap this view
+    const auto& values = evaluated(M);
+    std::copy(values.begin(), values.end(), this->begin());
     return *this;
 }
 
-- 
2.43.0


From 91ce6d2e69a35596bc04c8334ccf3bd622b98251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 33/43] fix: matrices could be constructed, resized or reshaped
 to negative or unrepresentable sizes, and a failed resize left shape and
 storage disagreeing

---
 src/SimpleMatrix.tpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 90a9787..328ddf9 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -1,3 +1,6 @@
+#include <limits>
+#include <cstdint>
+#include <algorithm>
 #include "cnn_from_scratch/Serialization.h"
 #include "cnn_from_scratch/Matrix/SimpleMatrix.h"
 
@@ -13,6 +16,23 @@
 
 namespace my_cnn{
 
+// Sides may not be negative, and the number of entries has to be representable
+inline bool isValidSize(const dim3& dim){
+    const int64_t max_entries = std::numeric_limits<int>::max();
+    return dim.x >= 0 && dim.y >= 0 && dim.z >= 0 &&
+           static_cast<int64_t>(dim.x)*dim.y <= max_entries/std::max(dim.z, 1);
+}
+
+// The number of entries of a matrix with the given dimensions, if there can be such a matrix
+inline size_t checkedSize(const dim3& dim){
+    if (!isValidSize(dim)){
+        std::stringstream ss;
+        ss << "There cannot be a matrix of size " << dim;
+        throw MatrixSizeException(ss.str());
+    }
+    return dim.size();
+}
+
 // ================================== //
 // ========== CONSTRUCTORS ========== //
 // ================================== //
@@ -21,7 +41,7 @@ namespace my_cnn{
 template<typename T>
 SimpleMatrix<T>::SimpleMatrix(dim3 dim, T initial_val):
 MatrixBase(dim),
-values_(dim.x*dim.y*dim.z, initial_val)
+values_(checkedSize(dim), initial_val)
 {}
 
 // From a Matrix-like object
@@ -38,7 +58,7 @@ values_(M.size())
 template<typename T>
 SimpleMatrix<T>::SimpleMatrix(dim3 dim, std::vector<T>&& vals):
 MatrixBase(dim),
-values_(size())
+values_(checkedSize(dim))
 {
     setEntries(std::forward<std::vector<T>>(vals));
 }
@@ -109,13 +129,14 @@ const dim3& SimpleMatrix<T>::dims() const{
 
 template<typename T>
 void SimpleMatrix<T>::resize(int x, int y, int z){
-    dim_ = dim3(x, y, z);
-    values_.resize(x*y*z, T{});
+    const dim3 new_dim(x, y, z);
+    values_.resize(checkedSize(new_dim), T{});
+    dim_ = new_dim;
 }
 
 template<typename T>
 void SimpleMatrix<T>::reshape(int x, int y, int z){
-    if(x*y*z != dim_.x*dim_.y*dim_.z){
+    if(!isValidSize(dim3(x, y, z)) || x*y*z != dim_.x*dim_.y*dim_.z){
         std::stringstream ss;
         ss << "Cannot transform matrix from size " << dim_ << " to size " << dim3(x,y,z) << "\n";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From f500ed3edee556fd20dd26149a84eec837c1361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 34/43] fix: deserializing a matrix whose size is not
 representable wrote out of bounds

---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 328ddf9..7885695 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -266,7 +266,7 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.y;
     is >> dim.z;
 
-    if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
+    if (is.fail() || !isValidSize(dim)) return false;
     this->resize(dim);
 
     // Newline
-- 
2.43.0


From 09031079f08f749e4aee6e0148e1c0c56cbae462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 35/43] fix: an epoch left out the last points of a data source
 whose size is not representable as a float

---
 src/ModelDescription.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 211eb33..2780a8f 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -248,13 +248,14 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     std::vector<std::thread> workers(params.num_threads);
 
     // Determine how much work each thread has to do
-    const int work_count = std::ceil((float)params.batch_size / params.num_threads);
+    const int work_count = params.batch_size / params.num_threads + (params.batch_size % params.num_threads != 0);
 
     // Create a vector to store the results of each individual forward propagation
     std::vector<ModelResults<OutputDataType>> batch_results(params.batch_size);
     std::atomic_int success_count = 0;
 
-    const int num_batches = std::ceil((float)data_source.size() / params.batch_size);
+    // (in whole numbers, since a float cannot represent the size of every data source)
+    const int num_batches = (data_source.size() + params.batch_size - 1) / params.batch_size;
     for (int n = 0; n < num_batches; n++){
         TIC("Run Batch");
 
-- 
2.43.0


From 0436a69101e40074dcb56cf24813788b2d3853d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 36/43] fix: printing an image of which every value is the
 maximum divided by zero

---
 include/cnn_from_scratch/imageUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/imageUtil.h b/include/cnn_from_scratch/imageUtil.h
index 243203a..0e81a47 100644
--- a/include/cnn_from_scratch/imageUtil.h
+++ b/include/cnn_from_scratch/imageUtil.h
@@ -14,7 +14,8 @@ void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
             const T& val = M(idx);
             float dist = max_val - val;
-            float mapped_val = max_val * (1 - dist/range);
+            // In an image where every value is the maximum there is no range to map
+            float mapped_val = range > 0 ? max_val * (1 - dist/range) : max_val;
             unsigned char code = std::min(static_cast<double>(mapped_val)/max_val * 255, 255.0);
             printf("\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);
         }
-- 
2.43.0


From a8f30a5e4f9051bb900d4f5911d188ceaba90a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 37/43] fix: views of regions whose end is not representable
 were accepted and reached out of bounds

---
 .../cnn_from_scratch/Matrix/SubMatrixView.h   | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index c396f2a..574c0f2 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -33,34 +33,15 @@ public:
     SubMatrixView(MatrixType& mat, dim3 start, dim3 dim) : 
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
-        dim3 end = start + dim;
-        if (start.x < 0 || start.y < 0 || start.z < 0 ||
-            dim.x < 0 || dim.y < 0 || dim.z < 0 ||
-            end.x > mat_ptr_->dim().x ||
-            end.y > mat_ptr_->dim().y ||
-            end.z > mat_ptr_->dim().z)
-        {
-            std::stringstream ss;
-            ss << "Cannot create subMatrixView from index " << start << " and of size " 
-               << dim << " from matrix of size " << mat_ptr_->dim();
-            throw MatrixSizeException(ss.str());
-        }
+        checkRegion(start, dim, mat_ptr_->dim(), "matrix");
     }
 
     SubMatrixView(const SubMatrixView<T>& other_view, dim3 start, dim3 dim) : 
-    SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
+    MatrixBase(dim), mat_ptr_(other_view.mat_ptr_), start_(other_view.start_)
     {
-        dim3 end = start + dim;
-        if (start.x < 0 || start.y < 0 || start.z < 0 ||
-            end.x > other_view.dim_.x ||
-            end.y > other_view.dim_.y ||
-            end.z > other_view.dim_.z)
-        {
-            std::stringstream ss;
-            ss << "Cannot create subMatrixView from index " << start << " and of size " 
-               << dim << " from subMatrixView of size " << mat_ptr_->dim();
-            throw MatrixSizeException(ss.str());
-        }
+        checkRegion(start, dim, other_view.dim_, "subMatrixView");
+        start_ = other_view.start_ + start;
+        checkRegion(start_, dim, mat_ptr_->dim(), "matrix");
     }
 
     // Indexing - const
@@ -104,6 +85,19 @@ public:
     }
 
 private:
+    // Throw if the region is not completely inside an object of the given size (the end of
+    // the region is not computed, since it might not be representable)
+    static void checkRegion(const dim3& start, const dim3& dim, const dim3& available, const char* what){
+        for (int i = 0; i < 3; i++){
+            if (start.data[i] < 0 || dim.data[i] < 0 || dim.data[i] > available.data[i] - start.data[i]){
+                std::stringstream ss;
+                ss << "Cannot create subMatrixView from index " << start << " and of size " 
+                   << dim << " from " << what << " of size " << available;
+                throw MatrixSizeException(ss.str());
+            }
+        }
+    }
+
     dim3 start_;
     MatrixType* mat_ptr_;
 };
-- 
2.43.0


From 914fc54e6fb31f4c6fed0bd590761d0825d58393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:06 +0000
Subject: [PATCH 38/43] fix: shapes were compared by a number they do not have,
 and numbers that are not given were uninitialized

---
 include/cnn_from_scratch/Matrix/dim.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index 7dfef9d..6e498ea 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstring>
 #include <ostream>
+#include <algorithm>
 
 namespace my_cnn{
 
@@ -26,6 +27,7 @@ struct Dim{
     Dim(ValSet... vals) {
         static_assert((std::is_integral_v<ValSet> && ...));
         static_assert(sizeof...(vals) <= N);
+        data.fill(0);
         size_t i = 0; 
         (void(data[i++] = vals), ...);
     }
@@ -58,7 +60,7 @@ struct Dim{
     }
 
     bool operator==(const Dim<N>& other) const{
-        return data == other.data;
+        return std::equal(data.begin(), data.begin() + N, other.data.begin());
     }
 
     bool operator!=(const Dim<N>& other) const{
-- 
2.43.0


From f32511117b47f9b57e15a0d3a5fc724039756fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:58 +0000
Subject: [PATCH 39/43] fix: validation asked for an image past the last one as
 a sample if rand returned RAND_MAX

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d3f17cb..696ecac 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -100,7 +100,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
 
     // Print some samples for manual inspection
     for (int i = 0; i < 5; i++){
-        int idx = (double)(rand())/RAND_MAX * num_images;
+        int idx = rand()/(RAND_MAX + 1.0) * num_images;
         auto Data = db.getImage(idx);
 
         my_cnn::ModelResults result = model.forwardPropagation(Data.data);
-- 
2.43.0


From b5a2ae835739028a48809bb51952204eaebd701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:33 +0000
Subject: [PATCH 40/43] fix: hand exceptions from the training threads to the
 caller

An exception in a worker thread (data of the wrong shape, an unknown label,
or a data source that throws) called std::terminate. The first batch in which
that happens now ends the epoch: all threads are joined, the gradients of the
batch are forgotten, and the exception is rethrown by runEpoch.
---
 src/ModelDescription.tpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 2780a8f..38d00b2 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -2,6 +2,7 @@
 #include <thread>
 #include <fstream>
 #include <atomic>
+#include <exception>
 #include "cnn_from_scratch/imageUtil.h"
 #include "cnn_from_scratch/timerConfig.h"
 #include "cnn_from_scratch/Serialization.h"
@@ -262,8 +263,9 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
         // Assign each thread to propagate the values
         int thread_idx = 0;
         std::mutex data_mtx;
+        std::exception_ptr error;
         for (std::thread& t : workers){
-            t = std::thread([&, thread_idx](){
+            auto process_share = [&, thread_idx](){
                 // Determine the final input index that this thread is responsible for
                 size_t start  = thread_idx * work_count;
                 size_t cutoff = std::min((thread_idx+1) * work_count, params.batch_size);
@@ -284,6 +286,16 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
                     if (result.label_idx == result.true_label_idx)
                         success_count++;
                 }
+            };
+
+            // An exception may not leave its thread, so keep it for the caller
+            t = std::thread([&, process_share](){
+                try{
+                    process_share();
+                }catch(...){
+                    std::lock_guard<std::mutex> lock(data_mtx);
+                    error = std::current_exception();
+                }
             });
 
             thread_idx++;
@@ -294,6 +306,14 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
             t.join();
         }
 
+        // If a data point could not be processed, forget the gradients of its batch
+        if (error){
+            for (auto& layer : layers){
+                layer->setBatchSize(params.batch_size);
+            }
+            std::rethrow_exception(error);
+        }
+
         // Apply the update step
         for (auto& layer : layers){
             layer->applyBatch(params.learning_rate);
-- 
2.43.0


From 529fb4c4637d6f8907030f336a349e945b3d127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 41/43] fix: do not accept image and label files that are cut
 off

The reader took whatever was on the stack for the header numbers and pixels
that were missing from the files, and accepted negative sizes.
---
 src/MNISTReader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index 2d90c4c..9c964f8 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -37,6 +37,15 @@ MNISTReader::MNISTReader(std::string image_filename, std::string label_filename)
     image_height_ = read<int32_t>(image_stream_);
     image_width_  = read<int32_t>(image_stream_);
 
+    // Make sure that the headers are complete and the files hold everything they announce
+    assert(image_stream_.good() && label_stream_.good());
+    assert(num_images_ >= 0 && image_height_ >= 0 && image_width_ >= 0);
+    const uintmax_t image_bytes = std::filesystem::file_size(image_filename) - DATA_NUM_HEADER_LINES*sizeof(int32_t);
+    const uintmax_t label_bytes = std::filesystem::file_size(label_filename) - LABEL_NUM_HEADER_LINES*sizeof(int32_t);
+    const uintmax_t image_size  = (uintmax_t)image_height_ * image_width_;
+    assert(image_size == 0 || image_bytes / image_size >= (uintmax_t)num_images_);
+    assert(label_bytes >= (uintmax_t)num_images_);
+
     std::cout << "Opened files \"" << image_filename << "\" and \"" << label_filename << "\"\n";
     std::cout << "Files contain " << num_images_ << " images and labels\n";
     std::cout << "Each image is of size " << image_width_ << "x" << image_height_ << "\n";
@@ -88,7 +97,7 @@ Image MNISTReader::nextImage(){
 
 template<typename T>
 T MNISTReader::read(std::fstream& stream){
-    T val;
+    T val = 0;
     char* buf = reinterpret_cast<char*>(&val);
     if (isBigendian()){
         stream.read(&buf[0], sizeof(T));
-- 
2.43.0


From 5f10a537a8ff975c409a683e66116088ff57cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 42/43] fix: print the most negative integer and matrices of
 unsigned integers

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index 567e423..eb4beb8 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -144,6 +144,14 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         max_width += 3;
     }
 
+    // The magnitude of an integer need not be representable in its own type
+    auto abs = [](const T& val){
+        if constexpr (std::is_integral_v<T>)
+            return val < 0 ? 0 - static_cast<unsigned long long>(val) : static_cast<unsigned long long>(val);
+        else
+            return std::abs(val);
+    };
+
     os << "\n";
     for (int i = 0; i < M.dim().x; i++){
         for (int k = 0; k < M.dim().z; k++){
-- 
2.43.0


From 63348457da8acbd90a9c7df57468208ab9fbb88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 43/43] fix: pooling output size was computed in single
 precision

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 50a2c29..39dc037 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -35,8 +35,8 @@ void Pooling::setBatchSize(size_t batch_size) {
 // ----------------------------------------------------------------------------
 
 dim3 Pooling::outputSize(const dim3& input_dim) const {
-    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0f)/stride_.x);
-    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0f)/stride_.y);
+    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0)/stride_.x);
+    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0)/stride_.y);
     const int z_size = input_dim.z;
     return dim3(x_size, y_size, z_size); 
 }
-- 
2.43.0

