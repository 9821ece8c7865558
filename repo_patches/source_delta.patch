From 3b6e831404f752b2d51a159371cb9b49f4315c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 01/52] fix: give float and int value checkers distinct ids

---
 include/BlasBooster/Core/AbsoluteValueRangeChecker.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index c1d6fb6..e18e34b 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -41,7 +41,15 @@ using ValueCheckerTypeList = TypeList <
     AbsoluteValueRangeChecker<double, ExclusiveBound, NoBound>,
     AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>,
     AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound>,
-    AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound>
+    AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound>,
+    AbsoluteValueRangeChecker<float, ExclusiveBound, NoBound>,
+    AbsoluteValueRangeChecker<float, ExclusiveBound, InclusiveBound>,
+    AbsoluteValueRangeChecker<float, InclusiveBound, InclusiveBound>,
+    AbsoluteValueRangeChecker<float, ExclusiveBound, ExclusiveBound>,
+    AbsoluteValueRangeChecker<int, ExclusiveBound, NoBound>,
+    AbsoluteValueRangeChecker<int, ExclusiveBound, InclusiveBound>,
+    AbsoluteValueRangeChecker<int, InclusiveBound, InclusiveBound>,
+    AbsoluteValueRangeChecker<int, ExclusiveBound, ExclusiveBound>
 >;
 
 template <class ThresholdType>
-- 
2.43.0


From 1d6ab248ed2dae69c441766a97f538ccedc02a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 02/52] fix: return the result of complex dot products from
 OpenBLAS

---
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp         | 17 +++++++++++++----
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp.pre     | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
index a2ee7ce..9c61e5c 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
@@ -3,6 +3,15 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// The Fortran symbols of OpenBLAS return complex numbers by value, which has no
+// portable C++ counterpart. Therefore, the C interface is used for them.
+extern "C" {
+void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+}
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -938,7 +947,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -946,7 +955,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -954,7 +963,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -962,7 +971,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
index f0c6ea4..6bdfd9a 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
@@ -3,6 +3,15 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// The Fortran symbols of OpenBLAS return complex numbers by value, which has no
+// portable C++ counterpart. Therefore, the C interface is used for them.
+extern "C" {
+void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+}
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -28,7 +37,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -36,7 +45,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -44,7 +53,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -52,7 +61,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
-- 
2.43.0


From 1135acfba035934317ac7d4f339fdd01370b2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 03/52] fix: terminate block size search if no border is
 admissible

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..b17e0bc 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -180,6 +180,8 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            // None of the remaining indices keeps both parts large enough
+            if (largest_min == 0) break;
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From 86658adf3cacbad2a99e6ef166f13fa066ba91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 04/52] fix: detect block borders independent of the storage
 order

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index b17e0bc..1c6acc8 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -115,23 +115,13 @@ std::tuple<std::vector<T>, std::vector<T>> BlockSizeGenerator::get_detection_arr
     std::vector<T> row_detect(matrix.getNbRows() - 1, 0.0);
     std::vector<T> col_detect(matrix.getNbColumns() - 1, 0.0);
 
-    typename Matrix<Dense,T,P>::const_iterator iter1(matrix_log.begin()),
-        iter2(matrix_log.begin() + 1), iter3(matrix_log.begin() + matrix.getNbColumns());
-
-    for (size_t i = 0; i != matrix.getNbRows() - 1; ++i)
+    for (size_t i = 0; i != matrix.getNbRows(); ++i)
     {
-        for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2, ++iter3)
+        for (size_t j = 0; j != matrix.getNbColumns(); ++j)
         {
-            row_detect[i] += std::abs(*iter1 - *iter3);
-            col_detect[j] += std::abs(*iter1 - *iter2);
+            if (i + 1 != matrix.getNbRows()) row_detect[i] += std::abs(matrix_log(i, j) - matrix_log(i + 1, j));
+            if (j + 1 != matrix.getNbColumns()) col_detect[j] += std::abs(matrix_log(i, j) - matrix_log(i, j + 1));
         }
-        row_detect[i] += std::abs(*iter1 - *iter3);
-        ++iter1, ++iter2, ++iter3;
-    }
-
-    for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2)
-    {
-        col_detect[j] += std::abs(*iter1 - *iter2);
     }
 
     return std::make_tuple(row_detect, col_detect);
-- 
2.43.0


From 43b60ccd4f7aa8fddd03e88ccdc572b81849fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 05/52] fix: use the single precision occupation threshold of
 zero matrices

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From deb8f10f47617adffa3f69616a8881b012ef727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 06/52] fix: order and sign of matrix differences, row-major
 dense plus sparse

---
 include/BlasBooster/Core/BinaryFunctors.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..7bfe708 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -267,7 +267,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getNbRows())
+        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getMajorDimension())
         {
             iterValueBCur = B.begin() + *iterOffsetBCur;
             iterKeyBCur = B.beginKey() + *iterOffsetBCur;
@@ -287,8 +287,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
-        BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        C = A;
+        BinaryAssignmentOperationFunctor<Operation,Dense,T3,P3,Dense,T2,P2>()(C,B);
     }
 };
 
@@ -309,6 +309,10 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
         C = B;
+        for (typename Matrix<M,T,P>::iterator iterCur(C.begin()), iterEnd(C.end()); iterCur != iterEnd; ++iterCur)
+        {
+            UnaryOperation<Operation>()(*iterCur,*iterCur);
+        }
     }
 };
 
@@ -554,9 +558,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
-- 
2.43.0


From e4e7859ce7700cd4a74381981b9745f4071edeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 07/52] fix: number of offsets of row-major sparse matrices

---
 include/BlasBooster/Core/SparseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..a052359 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -167,7 +167,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1)
 {
     filler(*this);
 }
@@ -266,7 +266,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From d6492c58cfa9187fdff24759d3b92278c3fdf317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 08/52] fix: sparse results keep only their stored elements

Sums, differences, products and transposes of sparse matrices allocated for the
worst case and reported that size as number of stored elements, so that norms,
occupation and iteration read uninitialised elements. The prefix sum of the
transposition started behind the end for a matrix with a single offset.
---
 include/BlasBooster/Core/BinaryFunctors.h        | 1 +
 include/BlasBooster/Core/Multiplication_Native.h | 1 +
 include/BlasBooster/Core/SparseStorage.h         | 6 ++++++
 include/BlasBooster/Core/Storage.h               | 6 ++++++
 include/BlasBooster/Core/Transposition.h         | 3 ++-
 5 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 7bfe708..8fad05b 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,7 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..2435c1e 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,7 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..c467164 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -118,6 +118,12 @@ public:
         offset_.resize(nbOfOffsets);
     }
 
+    /// Keep only the first nbOfValues elements
+    void shrink(IndexType nbOfValues) {
+        value_.shrink(nbOfValues);
+        key_.shrink(nbOfValues);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..002d022 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -370,6 +370,12 @@ public:
         size_ = size;
     }
 
+    /// Keep only the first elements
+    void shrink(size_t size) {
+        if (size > size_) throw std::runtime_error("shrink storage to a larger size.");
+        size_ = size;
+    }
+
     /// Copy assignment
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..2cdc0a7 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -59,7 +59,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
     }
 
     // accumulate number of elements to new offsets of transposed matrix
-    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 2),
+    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 1),
         iterOffsetTransEnd(transposedMatrix.endOffset()); iterOffsetTransCur != iterOffsetTransEnd; ++iterOffsetTransCur )
     {
         *iterOffsetTransCur += *(iterOffsetTransCur - 1);
@@ -82,6 +82,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
             ++currentOffset[*iterKeyCur];
         }
     }
+    transposedMatrix.shrink(matrix.nnz());
 
     return transposedMatrix;
 }
-- 
2.43.0


From f1fcb1a7fcae870efe9db509ccfa9db9d61f19c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 09/52] fix: iterate empty views, address nested views by the
 leading dimension

---
 include/BlasBooster/Core/Storage.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 002d022..9d4b466 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -600,19 +600,19 @@ public:
     }
 
     iterator rbegin() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(endPointer() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rbegin() const {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(endPointer() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator end() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(endPointer(), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(endPointer(), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
@@ -637,6 +637,11 @@ public:
 
 protected:
 
+    /// Behind the last element, equal to the begin of an empty storage
+    T* endPointer() const {
+        return size_ ? data_ + size_ + (nbBlocks_-1) * separatorSize_ : data_;
+    }
+
     template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
     friend class Storage;
 
-- 
2.43.0


From 15a79dda060ac8580bf81bd00d2dd16bbe5eca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 10/52] fix: apply value filters in every conversion, keep the
 order of row-major dense matrices

Conversions from a dense matrix or a sparse matrix ignored the given value
checker, and converting a row-major dense matrix into a sparse matrix compressed
along the wrong direction.
---
 include/BlasBooster/Core/DenseMatrix.h  | 35 +++++++++++++++-----
 include/BlasBooster/Core/SparseMatrix.h | 44 ++++++++++++++++++++++---
 2 files changed, 66 insertions(+), 13 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..e6f7741 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -115,8 +115,8 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with same orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             std::is_same<typename P::orientation, typename P2::orientation>::value and
             !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -124,14 +124,20 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with different orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             !std::is_same<typename P::orientation, typename P2::orientation>::value and
             !P2::isSubMatrix and !P2::isBlockedMatrix
         >::type* = 0
     );
 
+    /// Conversion from DenseMatrix, elements not accepted by the value checker are set to zero
+    template <class T2, class P2, class ValueChecker>
+    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+        typename std::enable_if<!P2::isSubMatrix and !P2::isBlockedMatrix>::type* = 0
+    );
+
     /// Conversion from SubDenseMatrix
     template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
@@ -454,8 +460,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
 
 // Conversion from DenseMatrix with same orientation
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         std::is_same<typename P::orientation, typename P2::orientation>::value and
         !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -466,8 +472,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
 
 // Conversion from DenseMatrix with different orientation
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         !std::is_same<typename P::orientation, typename P2::orientation>::value and
         !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -476,6 +482,19 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     storage(transpose(other))
 {}
 
+template <class T, class P>
+template <class T2, class P2, class ValueChecker>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+    typename std::enable_if<!P2::isSubMatrix and !P2::isBlockedMatrix>::type*)
+  : Matrix(other)
+{
+    for (IndexType column(0); column != other.getNbColumns(); ++column) {
+        for (IndexType row(0); row != other.getNbRows(); ++row) {
+            if (!valueChecker(other(row,column))) (*this)(row,column) = 0;
+        }
+    }
+}
+
 /// Conversion from SubDenseMatrix
 template <class T, class P>
 template <class T2, class P2, class ValueChecker>
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index a052359..39857f1 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -68,8 +68,12 @@ public:
     Matrix(IndexType nbRows, IndexType nbColumns, IndexType nbSignificantElements = 0, Filler const& filler = Filler());
 
     /// Conversion from SparseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<T>>
-    Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker());
+    template <class T2, class P2>
+    Matrix(Matrix<Sparse,T2,P2> const& other);
+
+    /// Conversion from SparseMatrix, keeping only elements accepted by the value checker
+    template <class T2, class P2, class ValueChecker>
+    Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker);
 
     /// Conversion from DenseMatrix
     /// Elements with an absolute value in the range (lowerThreshold,upperThreshold] are significant.
@@ -174,12 +178,42 @@ Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType n
 
 // Conversion from SparseMatrix
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
+template <class T2, class P2>
+Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other)
  : dimension(other.getNbRows(), other.getNbColumns()),
    storage(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other))
 {}
 
+// Conversion from SparseMatrix, keeping only elements accepted by the value checker
+template <class T, class P>
+template <class T2, class P2, class ValueChecker>
+Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
+ : dimension(other.getNbRows(), other.getNbColumns()),
+   storage(other.getNbOfSignificantElements(valueChecker), this->getMinorDimension() + 1)
+{
+    Matrix<Sparse,T2,P2> const source(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other));
+
+    iterator iterValueCur(this->begin());
+    index_iterator iterKeyCur(this->beginKey());
+    index_iterator iterOffsetCur(this->beginOffset());
+
+    typename P::IndexType offset(0);
+
+    for (typename P::IndexType minor(0); minor != this->getMinorDimension(); ++minor)
+    {
+        *iterOffsetCur++ = offset;
+        for (typename P::IndexType pos(source.beginOffset()[minor]), end(source.beginOffset()[minor + 1]); pos != end; ++pos)
+        {
+            if (valueChecker(source.begin()[pos])) {
+                *iterValueCur++ = source.begin()[pos];
+                *iterKeyCur++ = source.beginKey()[pos];
+                ++offset;
+            }
+        }
+    }
+    *iterOffsetCur++ = offset;
+}
+
 // Conversion from DenseMatrix
 template <class T, class P>
 template <class T2, class P2, class ValueChecker>
@@ -194,7 +228,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
-- 
2.43.0


From 75ac896631db9fa199c50be7106a6ba84b102a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 11/52] fix: renew norm and occupation after changes, keep all
 dimensions when moving, swapping and resizing

---
 include/BlasBooster/Core/DenseMatrix.h      | 49 +++++++++++++++++----
 include/BlasBooster/Core/NormPolicy.h       |  5 ++-
 include/BlasBooster/Core/OccupationPolicy.h |  3 +-
 include/BlasBooster/Core/SparseMatrix.h     | 25 ++++++++++-
 include/BlasBooster/Core/ZeroMatrix.h       |  3 +-
 5 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index e6f7741..4581bcd 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -205,8 +205,12 @@ public: // member functions
     /// Move constructor
     Matrix(self&& other)
      : dimension(std::move(other)),
-       storage(std::forward<storage>(other))
+       leadingDimension(std::move(other)),
+       unblockedDimension(std::move(other)),
+       storage(std::forward<storage>(other)),
+       isAliased_(other.isAliased_)
     {
+        other.contentsChanged();
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
     }
 
@@ -223,6 +227,9 @@ public: // member functions
         leadingDimension::operator=(std::forward<leadingDimension>(rhs));
         unblockedDimension::operator=(std::forward<unblockedDimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        isAliased_ = rhs.isAliased_;
+        contentsChanged();
+        rhs.contentsChanged();
         return *this;
     }
 
@@ -266,6 +273,20 @@ public: // member functions
     const T& operator () (IndexType row, IndexType column) const;
 
     // TODO: move to dimension
+    iterator begin() { contentsChanged(); return storage::begin(); }
+    const_iterator begin() const { return storage::begin(); }
+
+    iterator end() { contentsChanged(); return storage::end(); }
+    const_iterator end() const { return storage::end(); }
+
+    pointer getDataPointer() { contentsChanged(); return storage::getDataPointer(); }
+    const_pointer getDataPointer() const { return storage::getDataPointer(); }
+
+    void fill(T const& value) { contentsChanged(); storage::fill(value); }
+
+    /// Norm and occupations are kept only if all changes of the elements go through this object
+    bool isCacheable() const { return !P::isSubMatrix and !P::isBlockedMatrix and !isAliased_; }
+
     template <class U = P>
     IndexType getLdColumns(typename std::enable_if<!U::isSubMatrix>::type* = 0) const {
         return this->getNbColumns();
@@ -292,11 +313,13 @@ public: // member functions
 
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
-        swap(a.data_,b.data_);
-        swap(a.size_,b.size_);
-        swap(a.ownMemory_,b.ownMemory_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        swap(static_cast<leadingDimension&>(a), static_cast<leadingDimension&>(b));
+        swap(static_cast<unblockedDimension&>(a), static_cast<unblockedDimension&>(b));
+        swap(static_cast<storage&>(a), static_cast<storage&>(b));
+        swap(a.isAliased_, b.isAliased_);
+        a.contentsChanged();
+        b.contentsChanged();
         //swap(a.storage,b.storage);
     }
 
@@ -306,6 +329,12 @@ public: // member functions
 
 private:
 
+    /// Norm and occupations have to be evaluated anew
+    void contentsChanged() { this->resetNorm(); this->reset(); }
+
+    /// Memory is accessible by a submatrix or is not owned
+    mutable bool isAliased_ = false;
+
     template <class M2, class T2, class P2>
     friend struct Matrix;
 
@@ -319,6 +348,7 @@ private:
     {
         ar & boost::serialization::base_object<dimension>(*this);
         ar & boost::serialization::base_object<storage>(*this);
+        contentsChanged();
     }
 
     template <class U = P>
@@ -368,7 +398,8 @@ template <class T, class P>
 Matrix<Dense,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     T* ptrExternalMemory)
  : dimension(nbRows,nbColumns),
-   storage(ptrExternalMemory,nbRows*nbColumns)
+   storage(ptrExternalMemory,nbRows*nbColumns),
+   isAliased_(true)
 {}
 
 #ifndef NO_INITIALIZER_LIST_SUPPORTED
@@ -712,6 +743,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
 {
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    contentsChanged();
     filler(*this);
 }
 
@@ -721,8 +753,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
diff --git a/include/BlasBooster/Core/NormPolicy.h b/include/BlasBooster/Core/NormPolicy.h
index 241304a..54f06f9 100644
--- a/include/BlasBooster/Core/NormPolicy.h
+++ b/include/BlasBooster/Core/NormPolicy.h
@@ -41,10 +41,13 @@ public:
     {
         if (!isNormUpToDate_) {
             norm_ = norm<NormType>(*(static_cast<const Derived*>(this)));
-            isNormUpToDate_ = true;
+            isNormUpToDate_ = static_cast<const Derived*>(this)->isCacheable();
         }
     }
 
+    /// Must be called if the contents of the matrix may have changed
+    void resetNorm() { isNormUpToDate_ = false; }
+
 private:
 
     mutable double norm_;
diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index 0b4a084..c7d9953 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -23,7 +23,7 @@ public:
             return nbDesiredElementsMap_[key];
         } else {
             size_t nbDesiredElements = countDesiredElements(*(static_cast<const Derived*>(this)),valueChecker);
-            nbDesiredElementsMap_[key] = nbDesiredElements;
+            if (static_cast<const Derived*>(this)->isCacheable()) nbDesiredElementsMap_[key] = nbDesiredElements;
             return nbDesiredElements;
         }
     }
@@ -48,6 +48,7 @@ public:
         return getOccupation(valueChecker) < value;
     }
 
+    /// Must be called if the contents of the matrix may have changed
     void reset()
     {
         nbDesiredElementsMap_.clear();
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 39857f1..a635189 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -96,6 +96,7 @@ public:
      : dimension(std::forward<dimension>(rhs)),
        storage(std::forward<storage>(rhs))
     {
+        rhs.contentsChanged();
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move constructor is called.");
     }
 
@@ -111,6 +112,8 @@ public:
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move assignment operator is called.");
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        contentsChanged();
+        rhs.contentsChanged();
         return *this;
     }
 
@@ -123,6 +126,19 @@ public:
         return storage::operator==(rhs) and dimension::operator==(rhs);
     }
 
+    iterator begin() { contentsChanged(); return storage::begin(); }
+    const_iterator begin() const { return storage::begin(); }
+
+    index_iterator beginKey() { contentsChanged(); return storage::beginKey(); }
+    const_index_iterator beginKey() const { return storage::beginKey(); }
+
+    index_iterator beginOffset() { contentsChanged(); return storage::beginOffset(); }
+    const_index_iterator beginOffset() const { return storage::beginOffset(); }
+
+    void shrink(IndexType nbOfValues) { contentsChanged(); storage::shrink(nbOfValues); }
+
+    bool isCacheable() const { return true; }
+
     const std::type_info& getTypeInfo() const { return typeid(*this); }
 
     size_t getTypeIndex() const { return typeIndex_; }
@@ -132,8 +148,9 @@ public:
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        a.contentsChanged();
+        b.contentsChanged();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -142,6 +159,9 @@ public:
 
 private:
 
+    /// Norm and occupations have to be evaluated anew
+    void contentsChanged() { this->resetNorm(); this->reset(); }
+
     template <class M2, class T2, class P2>
     friend struct Matrix;
 
@@ -300,6 +320,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
+    contentsChanged();
     static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..fc70ed7 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From 811616b43dbe7c03c8e6c6d75a99259cbeecb5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 12/52] fix: accumulate row-major sparse matrices in their
 order, accumulate once into multiple matrices

---
 include/BlasBooster/Core/BinaryFunctors.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 8fad05b..dd125d5 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -367,15 +367,18 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
         assert(A.getNbRows() == B.getNbRows());
         assert(A.getNbColumns() == B.getNbColumns());
 
-        size_t col(0);
+        size_t major(0);
         for (typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetCur(B.beginOffset()),
-            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++col)
+            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++major)
         {
             typename Matrix<Sparse,T2,P2>::const_iterator iterValueCur(B.begin() + *iterOffsetCur);
             typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyCur(B.beginKey() + *iterOffsetCur), iterKeyEnd(B.beginKey() + *(iterOffsetCur+1));
             for ( ; iterKeyCur != iterKeyEnd; ++iterKeyCur, ++iterValueCur)
             {
-                OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                if constexpr (std::is_same<typename P2::orientation, RowMajor>::value)
+                    OperationAssignment<Operation>()(A(major,*iterKeyCur),*iterValueCur);
+                else
+                    OperationAssignment<Operation>()(A(*iterKeyCur,major),*iterValueCur);
             }
         }
     }
@@ -525,7 +528,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -534,8 +536,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
-    A.getMatrix1() += B.getMatrix2();
     A.getMatrix2() += B.getMatrix2();
     return A;
 }
@@ -577,7 +577,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -586,8 +585,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
-    A.getMatrix1() -= B.getMatrix2();
     A.getMatrix2() -= B.getMatrix2();
     return A;
 }
-- 
2.43.0


From 9a099b048dec7e644c4ff560aac7880c30ae0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 13/52] fix: reject operands of different dimensions

---
 include/BlasBooster/Core/BinaryFunctors.h | 13 +++++++++++++
 include/BlasBooster/Core/MatrixMultExp.h  | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index dd125d5..fe9c771 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -455,10 +455,20 @@ template <class T> T operator - (NullType, T);
 NullType operator + (NullType, NullType);
 NullType operator - (NullType, NullType);
 
+/// Sums and differences are only defined for operands of the same dimensions
+template <class MatrixA, class MatrixB>
+inline void checkSameDimensions(MatrixA const& A, MatrixB const& B)
+{
+    if (A.getNbRows() != B.getNbRows() || A.getNbColumns() != B.getNbColumns()) {
+        BLASBOOSTER_CORE_FAILURE("Dimensions of the operands are different.");
+    }
+}
+
 template <class M1, class T1, class M2, class T2, class P>
 inline auto operator + (Matrix<M1,T1,P> const& A, Matrix<M2,T2,P> const& B)
     -> Matrix<decltype(M1() + M2()),decltype(T1() + T2()),P>
 {
+    checkSameDimensions(A,B);
     Matrix<decltype(M1() + M2()),decltype(T1() + T2()),P> C;
     BinaryOperationFunctor<Plus,M1,T1,P,M2,T2,P,
         decltype(M1() + M2()),decltype(T1() + T2()),P>()(A,B,C);
@@ -469,6 +479,7 @@ template <class M1, class T1,
           class M2, class T2, class P>
 inline Matrix<M1,T1,P>& operator += (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
+    checkSameDimensions(A,B);
     BinaryAssignmentOperationFunctor<Plus,M1,T1,P,M2,T2,P>()(A,B);
     return A;
 }
@@ -478,6 +489,7 @@ template <class M1, class T1,
 inline auto operator - (Matrix<M1,T1,P> const& A, Matrix<M2,T2,P> const& B)
     -> Matrix<decltype(M1() - M2()),decltype(T1() - T2()),P>
 {
+    checkSameDimensions(A,B);
     Matrix<decltype(M1() - M2()),decltype(T1() - T2()),P> C;
     BinaryOperationFunctor<Minus,M1,T1,P,M2,T2,P,
         decltype(M1() - M2()),decltype(T1() - T2()),P>()(A,B,C);
@@ -488,6 +500,7 @@ template <class M1, class T1,
           class M2, class T2, class P>
 inline Matrix<M1,T1,P>& operator -= (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
+    checkSameDimensions(A,B);
     BinaryAssignmentOperationFunctor<Minus,M1,T1,P,M2,T2,P>()(A,B);
     return A;
 }
diff --git a/include/BlasBooster/Core/MatrixMultExp.h b/include/BlasBooster/Core/MatrixMultExp.h
index 33cca37..563d16d 100644
--- a/include/BlasBooster/Core/MatrixMultExp.h
+++ b/include/BlasBooster/Core/MatrixMultExp.h
@@ -25,6 +25,15 @@ struct MatrixMultExp
     static_assert(wrong_t<TypeA>::value, "Primary template must not be instantiated.");
 };
 
+/// Products are only defined for operands with the same inner dimension
+template <class MatrixA, class MatrixB>
+inline void checkConformingDimensions(MatrixA const& A, MatrixB const& B)
+{
+    if (A.getNbColumns() != B.getNbRows()) {
+        BLASBOOSTER_CORE_FAILURE("Inner dimensions of the operands are different.");
+    }
+}
+
 /// Expression template for multiplication Matrix * Matrix
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 class MatrixMultExp<Matrix<M1,T1,P1>, Matrix<M2,T2,P2>>
@@ -38,6 +47,7 @@ public:
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())>
     {
+        checkConformingDimensions(A,B);
         Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())> C;
         MultiplicationFunctor<M1,T1,P1,M2,T2,P2, decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2()), Interface>()(A,B,C);
         return C;
@@ -63,6 +73,7 @@ public:
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), DynamicMatrix, P>
     {
+        checkConformingDimensions(A,B);
         Matrix<decltype(M1() * M2()), DynamicMatrix, P> C;
         MultiplicationFunctor<M1,DynamicMatrix,P,M2,DynamicMatrix,P, decltype(M1() * M2()), DynamicMatrix, P, Interface>()(A,B,C);
         return C;
-- 
2.43.0


From 68d1e031d6fee5c90b90255cfedaad458bca0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 14/52] fix: multiply row-major operands in their order, pass
 valid leading dimensions of empty matrices to OpenBLAS

---
 include/BlasBooster/Core/MatrixMultExp.h      | 20 ++++++++++++++++---
 .../Core/Multiplication_OpenBLAS.h            | 13 ++++++------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixMultExp.h b/include/BlasBooster/Core/MatrixMultExp.h
index 563d16d..0945bb7 100644
--- a/include/BlasBooster/Core/MatrixMultExp.h
+++ b/include/BlasBooster/Core/MatrixMultExp.h
@@ -34,6 +34,16 @@ inline void checkConformingDimensions(MatrixA const& A, MatrixB const& B)
     }
 }
 
+/// The multiplication kernels work on column-major operands, row-major matrices have to be converted
+template <class M, class T, class P>
+inline decltype(auto) toColumnMajor(Matrix<M,T,P> const& A)
+{
+    if constexpr (std::is_same<typename P::orientation, RowMajor>::value)
+        return Matrix<M,T,Parameter<typename P::IndexType, ColumnMajor>>(A);
+    else
+        return (A);
+}
+
 /// Expression template for multiplication Matrix * Matrix
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 class MatrixMultExp<Matrix<M1,T1,P1>, Matrix<M2,T2,P2>>
@@ -48,9 +58,13 @@ public:
     auto execute() const -> Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())>
     {
         checkConformingDimensions(A,B);
-        Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())> C;
-        MultiplicationFunctor<M1,T1,P1,M2,T2,P2, decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2()), Interface>()(A,B,C);
-        return C;
+        if constexpr (std::is_same<typename P1::orientation, RowMajor>::value || std::is_same<typename P2::orientation, RowMajor>::value) {
+            return (toColumnMajor(A) * toColumnMajor(B)).template execute<Interface>();
+        } else {
+            Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())> C;
+            MultiplicationFunctor<M1,T1,P1,M2,T2,P2, decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2()), Interface>()(A,B,C);
+            return C;
+        }
     }
 
 private:
diff --git a/include/BlasBooster/Core/Multiplication_OpenBLAS.h b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
index 58fe6cd..00ce5f7 100644
--- a/include/BlasBooster/Core/Multiplication_OpenBLAS.h
+++ b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
@@ -4,6 +4,7 @@
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/Multiplication.h"
 #include "BlasBooster/Utilities/Tracker.h"
+#include <algorithm>
 
 namespace BlasBooster {
 
@@ -25,9 +26,9 @@ struct MultiplicationFunctor<Dense,double,P,Dense,double,P,Dense,double,P,OpenBL
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max(1, M);
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         double *pA = const_cast<double*>(A.getDataPointer());
         double *pB = const_cast<double*>(B.getDataPointer());
@@ -55,9 +56,9 @@ struct MultiplicationFunctor<Dense,float,P,Dense,float,P,Dense,float,P,OpenBLAS>
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max(1, M);
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         float *pA = const_cast<float*>(A.getDataPointer());
         float *pB = const_cast<float*>(B.getDataPointer());
-- 
2.43.0


From ac31768194b94c0cffbf134fe2a32b0040ae9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 15/52] fix: norms of multiple, zero and single precision
 matrices

---
 include/BlasBooster/Core/MultipleMatrix.h | 12 +++++-----
 include/BlasBooster/Core/Norm.h           | 27 +++++++++++++++++++++--
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index f3bce09..9215bdc 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -2,7 +2,9 @@
 
 #include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/DynamicMatrixTypeList.h"
+#include "BlasBooster/Core/Matrix.h"
 #include "BlasBooster/Core/MatrixBase.h"
+#include "BlasBooster/Core/Norm.h"
 #include "BlasBooster/Utilities/TypeList.h"
 #include "BlasBooster/Utilities/TypeName.h"
 #include <memory>
@@ -84,16 +86,12 @@ struct MultipleMatrix
 
     double getNorm() const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return 0.0;
+        return norm<typename T1::parameter::NormType>(*this);
     }
 
-    bool isNormLargerThan(double /*value*/) const
+    bool isNormLargerThan(double value) const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return false;
+        return getNorm() > value;
     }
 
     const std::type_info& getTypeInfo() const { return typeid(*this); }
diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..1f2a1f3 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -2,6 +2,9 @@
 
 #include "BlasBooster/Utilities/exec_dyn.h"
 #include "BlasBooster/Utilities/TypeList.h"
+#include <algorithm>
+#include <cmath>
+#include <functional>
 
 namespace BlasBooster {
 
@@ -16,6 +19,26 @@ struct NormFunctor
     }
 };
 
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormOne, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormMax, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
 /// Specialization for Matrix<Zero>
 template <class P>
 struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
@@ -73,7 +96,7 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
         //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
@@ -133,7 +156,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, std::abs(*iterCur));
+            norm = std::max(norm, static_cast<double>(std::abs(*iterCur)));
         }
         return norm;
     }
-- 
2.43.0


From dcd2c9bd89034702dbd330e658a4099d540b1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 16/52] fix: copied, moved and loaded storages own their buffer
 and release the previous one

A copy of a proxy storage did not own (and never released) the buffer it
allocated, a storage that was moved from could not be resized any more, a
storage assigned to itself by move lost its buffer and loading into a
storage leaked its previous buffer.
---
 include/BlasBooster/Core/Storage.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 9d4b466..5c9980a 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -328,7 +328,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
@@ -341,7 +341,7 @@ public:
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move constructor is called.");
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
     }
 
     /// Conversion constructor
@@ -396,6 +396,7 @@ public:
     /// Move assignment
     Storage& operator = ( self&& rhs ) BLASBOOSTER_NOEXCEPT {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move assignment is called.");
+        if (this == &rhs) return *this;
         // clear own resources
         if (ownMemory_) deallocate<T>(data_);
         // steal other resources
@@ -405,7 +406,7 @@ public:
         // clean other resources
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
         return *this;
     }
 
@@ -491,6 +492,7 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
+        if (ownMemory_ and data_) deallocate<T>(data_);
         ar >> size_;
         data_ = allocate<T>(size_);
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-- 
2.43.0


From 26b8a6a3955675aa61107e137d903253e89d3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 17/52] fix: fixed size storages never release external memory
 nor share their buffer

Assigning to (or loading into) a fixed size proxy storage made it the owner
of the external memory, a moved-from storage kept pointing into the buffer of
its successor and the copy assignment of the fixed size sparse storage copied
nothing.
---
 include/BlasBooster/Core/SparseStorage.h | 2 +-
 include/BlasBooster/Core/Storage.h       | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index c467164..0acb4a2 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -36,7 +36,7 @@ public:
     /// Copy assignment operator
     SparseStorage& operator = ( const self& rhs ) {
 
-         if ( &rhs == this ) {
+         if ( &rhs != this ) {
              std::copy_n(rhs.begin(),rhs.size(),this->begin());
          }
 
diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 5c9980a..310b35d 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -161,10 +161,10 @@ public:
 
     /// Move constructor
     Storage( Storage&& rhs )
-     : data_(rhs.data_), ownMemory_(rhs.ownMemory_)
+     : data_(new T[size_]), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Move constructor is called.");
-        rhs.ownMemory_ = false;
+        swap(*this,rhs);
     }
 
     /// Conversion constructor
@@ -192,7 +192,6 @@ public:
         if ( this != &rhs ) {
             if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
             std::copy_n(rhs.begin(),rhs.size_,begin());
-            ownMemory_ = true;
         }
         return *this;
     }
@@ -275,7 +274,6 @@ protected:
     void load(Archive & ar, const unsigned int version)
     {
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
     }
 
     T* data_;
-- 
2.43.0


From 3df231e0a664459feb3dfaa46b1327e2ff8314e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 18/52] fix: a rejected resize of a dense matrix on external
 memory keeps its dimensions

---
 include/BlasBooster/Core/DenseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 4581bcd..54a8f66 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -741,8 +741,8 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     contentsChanged();
     filler(*this);
 }
-- 
2.43.0


From fdd38b9fdc2cc0e713d892457da73d22acbe3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 19/52] fix: views of views address the outermost matrix, a
 matrix with views keeps no norm or occupation

Completes f1fcb1a and 75ac896: the leading dimension of a view of a view was
the number of rows of the inner view, and a norm kept before a view was created
did not notice writes through the view.
---
 include/BlasBooster/Core/DenseMatrix.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 54a8f66..c09b41b 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -466,11 +466,14 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
    // TODO: avoid const_cast
-   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getNbRows()),
-       nbRows, nbColumns, other.getNbRows() - nbRows)
-{}
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
+       nbRows, nbColumns, other.getLdRows() - nbRows)
+{
+    other.isAliased_ = true;
+    const_cast<Matrix<Dense,T2,P2>&>(other).contentsChanged();
+}
 
 template <class T, class P>
 template <class T2, class P2, class U>
-- 
2.43.0


From 49b5fe1cc462ba7f4408bcfdd32b0892ad71a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 20/52] fix: default constructed sparse matrices have an offset
 array

---
 include/BlasBooster/Core/SparseMatrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index a635189..5bb44e7 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -183,8 +183,10 @@ private:
 
 template <class T, class P>
 Matrix<Sparse,T,P>::Matrix()
- : dimension(), storage()
-{}
+ : dimension(), storage(0, 1)
+{
+    *storage::beginOffset() = 0;
+}
 
 template <class T, class P>
 template <class Filler>
-- 
2.43.0


From c75d32b77aa71658ca37f0b4d89965ecb9bae2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 21/52] fix: keep all significant elements in adaptively chosen
 sparse double matrices

The filter used the threshold of single precision, so elements between the
two significance thresholds were lost.
---
 include/BlasBooster/Core/MatrixConverter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index cac376e..f779e90 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -72,7 +72,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,double,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,double,P2>(matrix,
-            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 281497bed40e260aa69e9c5934dcf5e283d746ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 22/52] fix: keep the large elements in adaptively chosen
 sparse float matrices

With an occupation threshold that allows elements above the significance
threshold of single precision, exactly those elements were lost.
---
 include/BlasBooster/Core/MatrixConverter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index f779e90..178079f 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -83,8 +83,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,float,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,float,P2>(matrix,
-            AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound>(
-                threshold.getSignificanceThreshold<double>(),threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 7c4ac34be86ce388fa4f3a3b27afb9b2f37a68a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 23/52] fix: the occupation of a matrix without elements is
 zero

It was 0/0, so that no type was found for empty blocks.
---
 include/BlasBooster/Core/OccupationPolicy.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index c7d9953..9c9001e 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -32,6 +32,7 @@ public:
     template <class ValueChecker>
     double getOccupation(ValueChecker const& valueChecker) const
     {
+        if (static_cast<const Derived*>(this)->getSize() == 0) return 0.0;
         return static_cast<double>(getNbOfSignificantElements(valueChecker))
             / static_cast<const Derived*>(this)->getSize();
     }
-- 
2.43.0


From 80e885321f11cd7a7ed407ae3015cd6d3e5922ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 24/52] fix: start counting block types at zero

---
 include/BlasBooster/Core/GenerateTypeMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
-- 
2.43.0


From 7b40c75e6b2539f49e209f574a37c2326502b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 25/52] fix: compare dense matrices of different storage orders
 by position

equal() compared the elements in the order of the memory, so a row-major
matrix was equal to the column-major matrix with the transposed contents.
Submatrices can be compared as well now.
---
 include/BlasBooster/Core/DenseMatrix.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index c09b41b..854d42f 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -259,9 +259,13 @@ public: // member functions
 
     template <class T2, class P2>
     bool equal(Matrix<Dense,T2,P2> const& rhs) const {
-        return storage::equal(rhs)
-            and this->getNbRows() == rhs.getNbRows()
-            and this->getNbColumns() == rhs.getNbColumns();
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        for (IndexType j(0); j < this->getNbColumns(); ++j) {
+            for (IndexType i(0); i < this->getNbRows(); ++i) {
+                if (!equalWithinNumericalAccuracy((*this)(i,j),rhs(i,j))) return false;
+            }
+        }
+        return true;
     }
 
     template <class T2, class P2>
-- 
2.43.0


From d09bf13be5c7dbee26dd71b700d950877f5164f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 26/52] fix: reject submatrices outside of the matrix

They addressed memory that does not belong to the matrix.
---
 include/BlasBooster/Core/DenseMatrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 854d42f..feaef99 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -475,6 +475,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
    storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
        nbRows, nbColumns, other.getLdRows() - nbRows)
 {
+    if (beginRow > other.getNbRows() or nbRows > other.getNbRows() - beginRow or
+        beginColumn > other.getNbColumns() or nbColumns > other.getNbColumns() - beginColumn) {
+        BLASBOOSTER_CORE_FAILURE("Submatrix is not part of the matrix.");
+    }
     other.isAliased_ = true;
     const_cast<Matrix<Dense,T2,P2>&>(other).contentsChanged();
 }
-- 
2.43.0


From 29af7cd97c92caea76c06a550f1b207249352b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 27/52] fix: reject block sizes that do not sum up to the
 dimensions

Elements without a block were uninitialised after reassembling the matrix.
---
 include/BlasBooster/Core/BlockedMatrixGenerator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/BlasBooster/Core/BlockedMatrixGenerator.h b/include/BlasBooster/Core/BlockedMatrixGenerator.h
index b62a531..9884664 100644
--- a/include/BlasBooster/Core/BlockedMatrixGenerator.h
+++ b/include/BlasBooster/Core/BlockedMatrixGenerator.h
@@ -4,6 +4,7 @@
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/MatrixConverter.h"
 #include "BlasBooster/Core/SparseMatrix.h"
+#include <numeric>
 #include <set>
 #include <stdexcept>
 
@@ -19,6 +20,11 @@ struct BlockedMatrixGenerator
         typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
         typedef Parameter<typename P::IndexType, typename P::orientation, typename P::SizeType, LeadingDimension> ParameterType;
     
+        if (std::accumulate(rowBlockSizeList.begin(),rowBlockSizeList.end(),size_t(0)) != matrix.getNbRows() or
+            std::accumulate(columnBlockSizeList.begin(),columnBlockSizeList.end(),size_t(0)) != matrix.getNbColumns()) {
+            BLASBOOSTER_CORE_FAILURE("The block sizes do not sum up to the dimensions of the matrix.");
+        }
+    
         BlockedDenseMatrix blockedMatrix(rowBlockSizeList.size(),columnBlockSizeList.size(),
             matrix.getNbRows(),matrix.getNbColumns());
     
-- 
2.43.0


From 7c019169d64590eae80a1b735847a3e5817b04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 28/52] fix: a rejected reset of a multiple matrix leaves it
 unchanged

---
 include/BlasBooster/Core/MultipleMatrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index 9215bdc..e7653dd 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -49,14 +49,14 @@ struct MultipleMatrix
     void reset(std::shared_ptr<T1> const& ptrT1 = std::shared_ptr<T1>(),
         std::shared_ptr<T2> const& ptrT2 = std::shared_ptr<T2>()
     ){
-        ptrT1_ = ptrT1;
-        ptrT2_ = ptrT2;
-
-        if (ptrT1_ and ptrT2_)
+        if (ptrT1 and ptrT2)
         {
-            if (ptrT1_->getNbRows() != ptrT2_->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
-            if (ptrT1_->getNbColumns() != ptrT2_->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbRows() != ptrT2->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbColumns() != ptrT2->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
         }
+
+        ptrT1_ = ptrT1;
+        ptrT2_ = ptrT2;
     }
 
     typename T1::IndexType getNbRows() const { return ptrT1_->getNbRows(); }
-- 
2.43.0


From be1b91693e138dff497483ae8e9ebb39dd23af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 29/52] fix: reject initializer lists that do not describe a
 matrix

Rows of different lengths were read beyond their end, and blocks of different
widths in one column of a blocked matrix overlapped.
---
 include/BlasBooster/Core/DenseMatrix.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index feaef99..f283485 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -417,6 +417,8 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
     typedef Cursor<Matrix<Dense,T,P>, Direction::Row> RowCursor;
     typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
 
+    for (auto const& row : values) if (row.size() != this->getNbColumns()) throw std::runtime_error("wrong dimension");
+
     auto val1 = values.begin();
     for (RowCursor rowCur(*this,0), rowEnd(*this,this->getNbRows()); rowCur != rowEnd; ++rowCur, ++val1 )
     {
@@ -439,6 +441,8 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
     typedef Cursor<Matrix<Dense,T,P>, Direction::Row> RowCursor;
     typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
 
+    for (auto const& row : values) if (row.size() != this->getNbColumns()) throw std::runtime_error("wrong dimension");
+
     auto val1 = values.begin();
     typename P::IndexType ubRowsTmp, ubColumnsTmp;
     for (RowCursor rowCur(*this,0), rowEnd(*this,this->getNbRows()); rowCur != rowEnd; ++rowCur, ++val1)
@@ -450,8 +454,10 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
         for (ColumnCursor columnCur(*this,rowCur.begin()),
             columnEnd(*this,rowCur.end()); columnCur != columnEnd; ++columnCur, ++val2)
         {
-            *columnCur = *val2;
             if (ubRowsTmp != getNbRows(*val2)) throw std::runtime_error("wrong sub-dimension");
+            if (getNbColumns(*val2) != getNbColumns(*(values.begin()->begin() + (val2 - val1->begin()))))
+                throw std::runtime_error("wrong sub-dimension");
+            *columnCur = *val2;
             ubColumnsTmp += getNbColumns(*val2);
         }
         this->ubColumns_ = ubColumnsTmp;
-- 
2.43.0


From 4e54394a8e05176985b8cbe0c9cff70287d28798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 30/52] fix: striped iterators step consistently across end()
 and rend()

---
 include/BlasBooster/Core/Storage.h         | 8 ++++----
 include/BlasBooster/Core/StripedIterator.h | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 310b35d..70be1a7 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -608,19 +608,19 @@ public:
     }
 
     iterator end() {
-        return iterator(endPointer(), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(endPointer(), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(endPointer(), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(endPointer(), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rend() const {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     size_t size() const {
diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..44dd6e9 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -49,7 +49,8 @@ public:
     void increment()
     {
         if (position_ == continuousSizeMinus1_) {
-            if (static_cast<size_t>(++block_) == nbBlocks_) ++iter_;
+            ++block_;
+            if (block_ == 0 or static_cast<size_t>(block_) == nbBlocks_) ++iter_;
             else iter_ += separatorSizePlus1_;
             position_ = 0;
         } else {
@@ -61,7 +62,8 @@ public:
     void decrement()
     {
         if (position_ == 0) {
-            if (--block_ == -1) --iter_;
+            --block_;
+            if (block_ == -1 or static_cast<size_t>(block_) + 1 == nbBlocks_) --iter_;
             else iter_ -= separatorSizePlus1_;
             position_ = continuousSizeMinus1_;
         } else {
-- 
2.43.0


From 60637f0d40183a2d9eee3b7f918063353a430d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 31/52] fix: a file that cannot be written completely is
 reported

---
 include/BlasBooster/Utilities/FileIO.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index 3b32196..a15af06 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -27,8 +27,12 @@ void writeXML( T& settings, const std::string& name, const boost::filesystem::pa
 {
     if (!overwrite and exists(filename)) throw BlasBoosterException("writeXML: " + filename.string() + " exist");
     std::ofstream out(filename.string().c_str());
-    boost::archive::xml_oarchive oa(out);
-    oa << boost::serialization::make_nvp(name.c_str(),settings);
+    {
+        boost::archive::xml_oarchive oa(out);
+        oa << boost::serialization::make_nvp(name.c_str(),settings);
+    }
+    out.close();
+    if (!out) throw BlasBoosterException("writeXML: " + filename.string() + " can't be written");
 }
 
 template <class T>
@@ -46,8 +50,12 @@ void writeBinary( T& settings, const std::string& name, const boost::filesystem:
 {
     if (!overwrite and exists(filename)) throw BlasBoosterException("writeBinary: " + filename.string() + " exist");
     std::ofstream out(filename.string().c_str());
-    boost::archive::binary_oarchive oa(out);
-    oa << boost::serialization::make_nvp(name.c_str(),settings);
+    {
+        boost::archive::binary_oarchive oa(out);
+        oa << boost::serialization::make_nvp(name.c_str(),settings);
+    }
+    out.close();
+    if (!out) throw BlasBoosterException("writeBinary: " + filename.string() + " can't be written");
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 8d74575601561edf97761dc90d6d943ffb6ccb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 32/52] fix: a failing load of a storage released its memory
 twice

---
 include/BlasBooster/Core/Storage.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 70be1a7..a92ecac 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -490,11 +490,11 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
-        if (ownMemory_ and data_) deallocate<T>(data_);
-        ar >> size_;
-        data_ = allocate<T>(size_);
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
+        size_t size;
+        ar >> size;
+        self loaded(size);
+        for ( size_t i(0); i != size; ++i ) ar >> loaded.data_[i];
+        swap(*this, loaded);
     }
 
     T* data_;
-- 
2.43.0


From a7af09e30addb5a852d9df6a7c08629e81ac5aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 33/52] fix: importing a window checks the data file and keeps
 the matrix on errors, row-major matrices are not transposed

---
 include/BlasBooster/Core/MatrixFileIO.h | 33 +++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..77761db 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -5,6 +5,8 @@
 #include "BrainTwister/Record.h"
 #include <iostream>
 #include <fstream>
+#include <limits>
+#include <vector>
 // tmp
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -28,28 +30,33 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     boost::property_tree::ptree tree;
     boost::property_tree::read_xml(is, tree);
     MatrixFileSettings settings(tree);
-    matrix.resize(settings.nbRows, settings.nbColumns);
 
     // Some dimension checks
-    if (settings.nbRows + settings.rowOffset > settings.rowLeadingDimension) throw BlasBoosterException("");
-    if (settings.nbColumns + settings.columnOffset > settings.columnLeadingDimension) throw BlasBoosterException("");
+    if (settings.nbRows > settings.rowLeadingDimension
+        or settings.rowOffset > settings.rowLeadingDimension - settings.nbRows) throw BlasBoosterException("");
+    if (settings.nbColumns > settings.columnLeadingDimension
+        or settings.columnOffset > settings.columnLeadingDimension - settings.nbColumns) throw BlasBoosterException("");
+    if (settings.rowLeadingDimension != 0
+        and settings.columnLeadingDimension > size_t(std::numeric_limits<std::streamoff>::max()) / sizeof(T) / settings.rowLeadingDimension)
+        throw BlasBoosterException("Dimensions of file " + settings.filename + " are too large");
 
     std::ifstream is2(settings.filename, std::ifstream::binary);
     if (!is2) throw BlasBoosterException("Can't open file " + settings.filename);
 
-    T* dataPointer = matrix.getDataPointer();
+    // The file is column-major; the matrix stays untouched until everything has been read
+    std::vector<T> data(settings.nbRows * settings.nbColumns);
 
-    if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
-        is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
-    } else {
-        is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is.cur);
-        for (size_t col = 0; col < settings.nbColumns; ++col) {
-            is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * sizeof(T));
-            dataPointer += settings.nbRows;
-            is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
-        }
+    for (size_t col = 0; col < settings.nbColumns; ++col) {
+        is2.seekg(((settings.columnOffset + col) * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is2.beg);
+        if (!is2.read(reinterpret_cast<char*>(data.data() + col * settings.nbRows), settings.nbRows * sizeof(T)))
+            throw BlasBoosterException("Error reading file " + settings.filename);
     }
 
+    matrix.resize(settings.nbRows, settings.nbColumns);
+    for (size_t col = 0; col < settings.nbColumns; ++col)
+        for (size_t row = 0; row < settings.nbRows; ++row)
+            matrix(row, col) = data[col * settings.nbRows + row];
+
     return is;
 }
 
-- 
2.43.0


From 0a24f71e575ab36b61dd2f23ec56f2a105d58306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 34/52] fix: reject matrix files with dimensions that exceed
 the address space

---
 src/MatrixFactory/MatrixFileImporter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MatrixFactory/MatrixFileImporter.cpp b/src/MatrixFactory/MatrixFileImporter.cpp
index 69f198a..e346762 100644
--- a/src/MatrixFactory/MatrixFileImporter.cpp
+++ b/src/MatrixFactory/MatrixFileImporter.cpp
@@ -1,6 +1,7 @@
 #include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
 #include "BlasBooster/Utilities/BlasBoosterException.h"
 #include <fstream>
+#include <limits>
 
 namespace BlasBooster {
 
@@ -12,6 +13,8 @@ MatrixFileImporter::MatrixFileImporter(filesystem::path const& file)
         throw BlasBoosterException("Can't open file " + file.string());
     if (!(is >> nbRows >> nbColumns >> dataFile))
         throw BlasBoosterException("Error reading file " + file.string());
+    if (nbColumns != 0 and nbRows > std::numeric_limits<size_t>::max() / sizeof(double) / nbColumns)
+        throw BlasBoosterException("Dimensions of file " + file.string() + " are too large");
 }
 
 Matrix<Dense,double> MatrixFileImporter::operator()() const
-- 
2.43.0


From 284ced713c2de21c8da9682cfdee2f47c76f1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 35/52] fix: report unknown matrix sets and actions, bands
 wider than the matrix are clipped

---
 src/Benchmark/ActionProvider.cpp | 2 +-
 src/Benchmark/MatrixProvider.cpp | 5 +++--
 src/Benchmark/MatrixProvider.h   | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Benchmark/ActionProvider.cpp b/src/Benchmark/ActionProvider.cpp
index a278dcb..3db6967 100644
--- a/src/Benchmark/ActionProvider.cpp
+++ b/src/Benchmark/ActionProvider.cpp
@@ -101,7 +101,7 @@ ActionProvider::ActionProvider(ptree const& tree)
 //    	if (leaf.first == "blasbooster_sparse_float") {
 //    		action_list.push_back(std::make_shared<Action_blasbooster_sparse_float>(leaf.second));
         } else {
-            std::runtime_error(std::string("Unknown action: ") + leaf.first);
+            throw std::runtime_error(std::string("Unknown action: ") + leaf.first);
         }
     }
 }
diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 709bb84..e43d379 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -1,5 +1,6 @@
 #include "MatrixProvider.h"
 #include <iostream>
+#include <stdexcept>
 
 namespace BlasBooster {
 
@@ -25,7 +26,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 for (auto&& dim : dim_list) {
                     for (auto&& band_width : band_width_list) {
                         Matrix<Dense, double> matrix(dim, dim, AllFiller<double>(0.0));
-                        for (size_t b = 0; b != band_width; ++b) {
+                        for (size_t b = 0; b < band_width && b < dim; ++b) {
                             for (size_t i = 0; i != dim-b; ++i) {
                                 matrix(i+b, i) = value;
                                 matrix(i, i+b) = value;
@@ -41,7 +42,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 auto&& filename = type_leaf.second.get_value<std::string>();
                 matrix_set[name_leaf.first].push_back(Matrix<Dense, double>(filename));
             } else {
-                std::runtime_error("Unknown matrix_set type.");
+                throw std::runtime_error("Unknown matrix_set type.");
             }
         }
     }
diff --git a/src/Benchmark/MatrixProvider.h b/src/Benchmark/MatrixProvider.h
index 44f30ae..ed67a13 100644
--- a/src/Benchmark/MatrixProvider.h
+++ b/src/Benchmark/MatrixProvider.h
@@ -24,7 +24,7 @@ public:
 
     bool operator == (MatrixProvider const& other) const { return matrix_set == other.matrix_set; }
 
-    MatrixList get(std::string const& name) const { return matrix_set.find(name)->second; }
+    MatrixList get(std::string const& name) const { return matrix_set.at(name); }
 
 private:
 
-- 
2.43.0


From 6af04f6afc40f0c9c33f5290fbc5a2163b4f3b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 36/52] fix: increasing numbers fill row-major sparse matrices
 within their memory

---
 include/BlasBooster/Core/MatrixFiller.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFiller.h b/include/BlasBooster/Core/MatrixFiller.h
index 8dd30f0..c5110f3 100644
--- a/include/BlasBooster/Core/MatrixFiller.h
+++ b/include/BlasBooster/Core/MatrixFiller.h
@@ -46,6 +46,9 @@ struct ContinuousNumberFiller
     template <class T, class P>
     void operator () (Matrix<Sparse,T,P>& matrix) const
     {
+        if (typename P::IndexType(matrix.end() - matrix.begin()) != matrix.getSize())
+            throw CoreException("ContinuousNumberFiller: Matrix has no memory for all elements.");
+
         T value(1.0);
         for (typename Matrix<Sparse,T,P>::iterator iterCur(matrix.begin()), iterEnd(matrix.end());
             iterCur != iterEnd; ++iterCur, value += 1.0)
@@ -56,10 +59,10 @@ struct ContinuousNumberFiller
         typename P::IndexType offset(0), key;
         typename Matrix<Sparse,T,P>::index_iterator iterKeyCur(matrix.beginKey());
         typename Matrix<Sparse,T,P>::index_iterator iterOffsetCur(matrix.beginOffset()), iterOffsetEnd(matrix.endOffset() - 1);
-        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getNbRows())
+        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getMajorDimension())
         {
             key = 0;
-            while (key != matrix.getNbRows())
+            while (key != matrix.getMajorDimension())
             {
                 *iterKeyCur = key;
                 ++iterKeyCur;
-- 
2.43.0


From bbf5ed9b1e1edf6d34e3ec55cea94bf276cb8789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 37/52] fix: report pattern images that cannot be written

---
 include/BlasBooster/Core/PatternGenerator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/BlasBooster/Core/PatternGenerator.h b/include/BlasBooster/Core/PatternGenerator.h
index 8c79a20..2d082ab 100644
--- a/include/BlasBooster/Core/PatternGenerator.h
+++ b/include/BlasBooster/Core/PatternGenerator.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Utilities/BlasBoosterException.h"
 #include "BlasBooster/Utilities/FileIO.h"
 #include "BlasBooster/Utilities/Filesystem.h"
 #include "BrainTwister/Record.h"
@@ -45,6 +46,7 @@ template <class T, class P>
 void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::path const& file) const
 {
     std::ofstream outfile(file.string());
+    if (!outfile) throw BlasBoosterException("Can't open file " + file.string());
 
     // <width> <height> <colors> <char on pixel>
     outfile << "/* XPM */\nstatic char * matrix_xpm[] = {\n\""
@@ -102,6 +104,7 @@ void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::p
         else outfile << "\"," << std::endl;
     }
     outfile << "};" << std::endl;
+    if (!outfile) throw BlasBoosterException("Error writing file " + file.string());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 4910249f8cb3c735555bb5723914a2093765bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 38/52] fix: Blaze products do not require aligned, padded or
 non-empty matrices

---
 .../BlasBooster/Core/Multiplication_Blaze.h   | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Blaze.h b/include/BlasBooster/Core/Multiplication_Blaze.h
index 53585e7..da33fc8 100644
--- a/include/BlasBooster/Core/Multiplication_Blaze.h
+++ b/include/BlasBooster/Core/Multiplication_Blaze.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <blaze/Math.h>
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/Multiplication.h"
@@ -20,7 +21,11 @@ struct MultiplicationFunctor<Dense,double,P,Dense,double,P,Dense,double,P,Blaze>
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(), B.getNbColumns());
 
-        using MatrixType = blaze::CustomMatrix<double, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        // There are no views of empty arrays
+        if (A.getNbColumns() == 0) std::fill(C.begin(), C.end(), 0.0);
+        if (A.getSize() == 0 or B.getSize() == 0) return;
+
+        using MatrixType = blaze::CustomMatrix<double, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixType AA(const_cast<double*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixType BB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
@@ -41,7 +46,11 @@ struct MultiplicationFunctor<Dense,float,P,Dense,float,P,Dense,float,P,Blaze>
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(), B.getNbColumns());
 
-        using MatrixType = blaze::CustomMatrix<float, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        // There are no views of empty arrays
+        if (A.getNbColumns() == 0) std::fill(C.begin(), C.end(), 0.0);
+        if (A.getSize() == 0 or B.getSize() == 0) return;
+
+        using MatrixType = blaze::CustomMatrix<float, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixType AA(const_cast<float*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixType BB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
@@ -62,8 +71,12 @@ struct MultiplicationFunctor<Dense,float,P,Dense,double,P,Dense,double,P,Blaze>
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(), B.getNbColumns());
 
-        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::aligned, blaze::padded, blaze::columnMajor>;
-        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        // There are no views of empty arrays
+        if (A.getNbColumns() == 0) std::fill(C.begin(), C.end(), 0.0);
+        if (A.getSize() == 0 or B.getSize() == 0) return;
+
+        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
+        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixTypeFloat AA(const_cast<float*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixTypeDouble BB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
@@ -84,8 +97,12 @@ struct MultiplicationFunctor<Dense,double,P,Dense,float,P,Dense,double,P,Blaze>
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(),B.getNbColumns());
 
-        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::aligned, blaze::padded, blaze::columnMajor>;
-        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        // There are no views of empty arrays
+        if (A.getNbColumns() == 0) std::fill(C.begin(), C.end(), 0.0);
+        if (A.getSize() == 0 or B.getSize() == 0) return;
+
+        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
+        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixTypeDouble AA(const_cast<double*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixTypeFloat BB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
-- 
2.43.0


From a0296e25fecf01613a9490957b505be16535797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 39/52] fix: generate_matrix writes outside of band matrices
 that are not square or narrower than the band; unwritable files are reported

---
 src/Benchmark/generate_matrix.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 69d79e8..ab000ff 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -45,11 +45,9 @@ int main(int argc, char* argv[])
 
         if (type == "band") {
             matrix = Matrix<Dense, double>{rows, cols, AllFiller<double>{0.0}};
-            for (size_t b = 0; b != band_width; ++b) {
-                for (size_t i = 0; i != rows-b; ++i) {
-                    matrix(i+b,i) = value;
-                    matrix(i,i+b) = value;
-                }
+            for (size_t b = 0; b < band_width && (b < rows || b < cols); ++b) {
+                for (size_t i = 0; i + b < rows && i < cols; ++i) matrix(i+b,i) = value;
+                for (size_t i = 0; i < rows && i + b < cols; ++i) matrix(i,i+b) = value;
             }
         } else {
             DynamicMatrix D(new Matrix<Dense,double>(1000, 1000, DiagonalFiller<double>(0.1)));
@@ -62,6 +60,8 @@ int main(int argc, char* argv[])
 
         std::ofstream os(matrix_file, std::ofstream::binary);
         os.write(reinterpret_cast<const char*>(matrix.getDataPointer()), matrix.getSize()*sizeof(double));
+        os.close();
+        if (!os) throw std::runtime_error("Cannot write matrix file: " + matrix_file);
 
     } catch ( BlasBoosterException const& e ) {
         std::cout << "BlasBooster exception: " << e.what() << std::endl;
-- 
2.43.0


From f423e399a259f52fa1185046f96d4e6f9fae255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 40/52] fix: show_pattern clips the border to the block

---
 src/Benchmark/show_pattern.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark/show_pattern.cpp b/src/Benchmark/show_pattern.cpp
index 296292c..4deb20f 100644
--- a/src/Benchmark/show_pattern.cpp
+++ b/src/Benchmark/show_pattern.cpp
@@ -12,6 +12,7 @@
 #include "BrainTwister/JSON.h"
 #include "BrainTwister/Record.h"
 #include "clara.hpp"
+#include <algorithm>
 #include <iostream>
 
 using namespace BlasBooster;
@@ -111,10 +112,11 @@ int main(int argc, char* argv[])
 
                     AllFiller<double>(std::pow(10, -1.0 * (*type_column_cur)))(sub_matrix);
 
-                    for (int i = 0; i != border_width; ++i) {
+                    const size_t border = std::max(border_width, 0);
+                    for (size_t i = 0; i < border && i < (*dim_column_cur).second; ++i)
                         for (size_t j = 0; j != (*dim_column_cur).first; ++j) sub_matrix(j,i) = 0.0;
-                        for (size_t j = border_width; j != (*dim_column_cur).second; ++j) sub_matrix(i,j) = 0.0;
-                    }
+                    for (size_t i = 0; i < border && i < (*dim_column_cur).first; ++i)
+                        for (size_t j = border; j < (*dim_column_cur).second; ++j) sub_matrix(i,j) = 0.0;
 
                     // TODO: rowOffset is ideally determined one time (all submatrices in a column have the same row size).
                     // But I don't know yet how to determine the offset in the outer loop.
-- 
2.43.0


From 2aef4ed6a9f9713ab82b5e76c13e5425d58f2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 41/52] fix: benchmark rejects operands that do not match and
 reports difference files that cannot be written

---
 src/Benchmark/benchmark.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Benchmark/benchmark.cpp b/src/Benchmark/benchmark.cpp
index 5c615b5..cd3b5e6 100644
--- a/src/Benchmark/benchmark.cpp
+++ b/src/Benchmark/benchmark.cpp
@@ -82,6 +82,8 @@ int main(int argc, char* argv[])
 
         for (auto&& [A, B, i] : ranges::views::zip(list_A, list_B, ranges::views::indices(list_A.size())))
         {
+            if (A.getNbColumns() != B.getNbRows()) throw std::runtime_error("Dimensions of matrices A and B do not match");
+
             std::cout << std::setw(10) << std::left << i
                       << std::setw(30) << std::left << actions[0]->name() << std::flush;
 
@@ -111,6 +113,8 @@ int main(int argc, char* argv[])
                 if (write_diff) {
                     std::ofstream os(std::string("diff_") + std::to_string(i) + ".dat", std::ofstream::binary);
                     os.write(reinterpret_cast<const char*>(diff.getDataPointer()), diff.getSize()*sizeof(double));
+                    os.close();
+                    if (!os) throw std::runtime_error("Cannot write difference matrix");
                 }
             }
         }
-- 
2.43.0


From a9824c9b008282f7c24b54a4cee79172c9ce5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 42/52] fix: BlockSizeGenerator rejects operands with different
 inner dimensions

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 1c6acc8..423e790 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -95,6 +95,8 @@ std::tuple<std::vector<size_t>, std::vector<size_t>> BlockSizeGenerator::operato
 template <class T, class P>
 std::tuple<std::vector<size_t>, std::vector<size_t>, std::vector<size_t>> BlockSizeGenerator::matrix_matrix_mult(Matrix<Dense,T,P> const& A, Matrix<Dense,T,P> const& B) const
 {
+    if (A.getNbColumns() != B.getNbRows()) throw BlasBoosterException("BlockSizeGenerator: inner dimensions of the operands are different.");
+
     auto&& [row_detect_A, col_detect_A] = get_detection_arrays(A);
     auto&& [row_detect_B, col_detect_B] = get_detection_arrays(B);
 
-- 
2.43.0


From 37468832f6371175a8ae475026d63d3f0bd67297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:52 +0000
Subject: [PATCH 43/52] fix: fixed size storages reject lists that are too long
 and release their buffer when they reject values

---
 include/BlasBooster/Core/Storage.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index a92ecac..f548f90 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -54,6 +54,7 @@ public:
      : data_()
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onStack): Initializer list constructor is called.");
+        if ( values.size() > size_ ) throw std::runtime_error("Storage (onStack): values.size() > size_");
         size_t i(0);
         for (auto val : values) data_[i++] = val;
     }
@@ -142,7 +143,7 @@ public:
 #ifndef NO_INITIALIZER_LIST_SUPPORTED
     /// Initializer list constructor
     Storage( std::initializer_list<T> values )
-     : data_(new T[size_]), ownMemory_(true)
+     : Storage()
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Initializer list constructor is called.");
         if ( values.size() != size_ ) throw std::runtime_error("Storage (fixed,onHeap): values.size() != size_");
@@ -170,7 +171,7 @@ public:
     /// Conversion constructor
     template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
     Storage( const Storage<T2,onStack2,isFixed2,Size2,Strided2>& rhs )
-     : data_(new T[size_]), ownMemory_(true)
+     : Storage()
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Conversion constructor is called.");
         if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
-- 
2.43.0


From f30b99deacc32c12a62969270c45f63c1bf1bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 44/52] fix: value filters rejected the smallest integer and
 compared integers in single precision

---
 include/BlasBooster/Core/AbsoluteValueRangeChecker.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index e18e34b..a554b0c 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -68,7 +68,8 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        return std::abs(value) > threshold_;
+        double absValue = std::abs(static_cast<double>(value));
+        return absValue > threshold_;
     }
 
     bool operator < (ValueCheckerBase const& other) const
@@ -111,7 +112,7 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        double absValue = std::abs(value);
+        double absValue = std::abs(static_cast<double>(value));
         return absValue > lowerThreshold_ and absValue <= upperThreshold_;
     }
 
@@ -157,7 +158,7 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        double absValue = std::abs(value);
+        double absValue = std::abs(static_cast<double>(value));
         return absValue >= lowerThreshold_ and absValue <= upperThreshold_;
     }
 
@@ -203,7 +204,7 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        double absValue = std::abs(value);
+        double absValue = std::abs(static_cast<double>(value));
         return absValue > lowerThreshold_ and absValue < upperThreshold_;
     }
 
-- 
2.43.0


From 042b08ad74fa2e25a39f02a1bfc229c2e439dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 45/52] fix: EnumParser rejects unknown names and identifiers
 instead of reading beyond its maps

---
 include/BlasBooster/Utilities/EnumParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Utilities/EnumParser.h b/include/BlasBooster/Utilities/EnumParser.h
index 8f93400..bf21539 100644
--- a/include/BlasBooster/Utilities/EnumParser.h
+++ b/include/BlasBooster/Utilities/EnumParser.h
@@ -1,6 +1,6 @@
 #pragma once
 
-#include <cassert>
+#include "BlasBoosterException.h"
 #include <map>
 #include <string>
 
@@ -25,14 +25,14 @@ public:
     T operator () (std::string const& value) const
     {
         typename MapStringToEnum::const_iterator iValue = mapStringToEnum.find(value);
-        assert(iValue != mapStringToEnum.end());
+        if (iValue == mapStringToEnum.end()) throw BlasBoosterException("EnumParser: unknown name " + value);
         return iValue->second;
     }
 
     std::string operator () (T value) const
     {
         typename MapEnumToString::const_iterator iValue = mapEnumToString.find(value);
-        assert(iValue != mapEnumToString.end());
+        if (iValue == mapEnumToString.end()) throw BlasBoosterException("EnumParser: unknown identifier");
         return iValue->second;
     }
 
-- 
2.43.0


From 36a0e64c94c1eacae1991d5ae0e1102d5ab8cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 46/52] fix: integers differing by more than the integer range
 were compared as equal

---
 include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
index aaf7515..084ed97 100644
--- a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
+++ b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <complex>
+#include <type_traits>
 
 namespace BlasBooster {
 
@@ -17,7 +18,9 @@ template <> inline double numericalAccuracy< unsigned long >() { return 0.0; }
 template <class T1, class T2>
 bool equalWithinNumericalAccuracy(T1 const& v1, T2 const& v2)
 {
-    return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
+    // the difference of two integers may not be representable as an integer
+    typedef typename std::common_type<T1,T2,double>::type T;
+    return std::abs(static_cast<T>(v1) - static_cast<T>(v2)) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 906ed72b8fc0f8ab2945849748dc2f3dc12f13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 47/52] fix: norms of integer matrices mishandled the smallest
 integer

---
 include/BlasBooster/Core/Norm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index 1f2a1f3..2fdd722 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cmath>
 #include <functional>
+#include <type_traits>
 
 namespace BlasBooster {
 
@@ -67,7 +68,7 @@ struct NormFunctor<NormOne, Matrix<M,T,P> >
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            sum += std::abs(*iterCur);
+            sum += std::abs(static_cast<typename std::common_type<T, double>::type>(*iterCur));
         }
         return sum;
     }
@@ -156,7 +157,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, static_cast<double>(std::abs(*iterCur)));
+            norm = std::max(norm, static_cast<double>(std::abs(static_cast<typename std::common_type<T, double>::type>(*iterCur))));
         }
         return norm;
     }
-- 
2.43.0


From 12e5e7e3cd38ce1424a6a997d4379c9b568b5fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 48/52] fix: block size search overwrote the elements of a
 submatrix

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 423e790..65cdb4d 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -43,7 +43,8 @@ auto get_matrix_log(Matrix<Dense,T,P> const& matrix)
 template <class T, class P>
 auto get_matrix_frexp(Matrix<Dense,T,P> const& matrix)
 {
-    Matrix<Dense,T,P> matrix_log(matrix);
+    // deep copy, a submatrix would share its memory with the matrix
+    Matrix<Dense,T,Parameter<typename P::IndexType, typename P::orientation>> matrix_log(matrix);
     int exp;
     for (auto&& value : matrix_log) {
         frexp(value, &exp);
-- 
2.43.0


From 82a8fddbca2997da6e61d8ab0da827ffae402191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 49/52] fix: block sizes of matrices without elements could not
 be determined

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 65cdb4d..4bb1e8b 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -77,6 +77,13 @@ struct BlockSizeGenerator
     template <class T>
     std::vector<size_t> get_block_size(std::vector<T> const& detect) const;
 
+    /// A dimension without elements is kept as one empty block
+    template <class T>
+    std::vector<size_t> get_block_size(std::vector<T> const& detect, size_t dimension) const
+    {
+        return dimension == 0 ? std::vector<size_t>(1, 0) : get_block_size(detect);
+    }
+
     size_t min_block_size;
     size_t max_block_size;
 
@@ -90,7 +97,7 @@ std::tuple<std::vector<size_t>, std::vector<size_t>> BlockSizeGenerator::operato
         return std::make_tuple(std::vector<size_t>(1, matrix.getNbRows()), std::vector<size_t>(1, matrix.getNbColumns()));
 
     auto&& [row_detect, col_detect] = get_detection_arrays(matrix);
-    return std::make_tuple(get_block_size(row_detect), get_block_size(col_detect));
+    return std::make_tuple(get_block_size(row_detect, matrix.getNbRows()), get_block_size(col_detect, matrix.getNbColumns()));
 }
 
 template <class T, class P>
@@ -104,7 +111,7 @@ std::tuple<std::vector<size_t>, std::vector<size_t>, std::vector<size_t>> BlockS
     std::transform(col_detect_A.begin(), col_detect_A.end(),
         row_detect_B.begin(), col_detect_A.begin(), std::plus<size_t>());
 
-    return std::make_tuple(get_block_size(row_detect_A), get_block_size(col_detect_A), get_block_size(col_detect_B));
+    return std::make_tuple(get_block_size(row_detect_A, A.getNbRows()), get_block_size(col_detect_A, A.getNbColumns()), get_block_size(col_detect_B, B.getNbColumns()));
 }
 
 template <class T, class P>
@@ -115,8 +122,8 @@ std::tuple<std::vector<T>, std::vector<T>> BlockSizeGenerator::get_detection_arr
     //auto&& matrix_log = get_matrix_log(matrix);
     auto&& matrix_log = get_matrix_frexp(matrix);
 
-    std::vector<T> row_detect(matrix.getNbRows() - 1, 0.0);
-    std::vector<T> col_detect(matrix.getNbColumns() - 1, 0.0);
+    std::vector<T> row_detect(matrix.getNbRows() ? matrix.getNbRows() - 1 : 0, 0.0);
+    std::vector<T> col_detect(matrix.getNbColumns() ? matrix.getNbColumns() - 1 : 0, 0.0);
 
     for (size_t i = 0; i != matrix.getNbRows(); ++i)
     {
-- 
2.43.0


From 1fb68d34adb53f54e4fe85c65af400bc6625fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 50/52] fix: failed allocation leaves a storage with released
 memory

Storage::resize and the copy assignment released the memory before the new
memory was allocated. If the allocation throws, the storage kept the pointer
and released it a second time on destruction.
---
 include/BlasBooster/Core/Storage.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index f548f90..259429f 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -364,8 +364,10 @@ public:
     void resize(size_t size) {
         if (size_ == size) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
+        // nothing is changed if the allocation fails
+        T* data = allocate<T>(size);
         if (data_) deallocate<T>(data_);
-        data_ = allocate<T>(size);
+        data_ = data;
         size_ = size;
     }
 
@@ -379,15 +381,16 @@ public:
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
         if ( this != &rhs ) {
-            if (ownMemory_) deallocate<T>(data_);
             if (rhs.ownMemory_) {
-                data_ = allocate<T>(rhs.size_);
-                std::copy(rhs.begin(),rhs.end(),begin());
+                // nothing is changed if the allocation fails
+                self copy(rhs);
+                swap(*this, copy);
             } else {
+                if (ownMemory_) deallocate<T>(data_);
                 data_ = rhs.data_;
+                size_ = rhs.size_;
+                ownMemory_ = false;
             }
-            size_ = rhs.size_;
-            ownMemory_ = rhs.ownMemory_;
         }
         return *this;
     }
-- 
2.43.0


From 44798e7f7f117ee3bb2f42aa2cbc4f2456474ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 51/52] fix: failed allocation leaves a sparse matrix with new
 dimensions and old elements

Resize and copy assignment of a sparse matrix changed the dimensions and some
of the three storages before all memory was allocated.
---
 include/BlasBooster/Core/SparseMatrix.h  | 19 +++++++++++++------
 include/BlasBooster/Core/SparseStorage.h | 12 +++++++++---
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 5bb44e7..608d04c 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -103,8 +103,15 @@ public:
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (Matrix const& other) = default;
+    /// Copy assignment operator, nothing is changed if an allocation fails
+    Matrix& operator = (Matrix const& other)
+    {
+        if (this != &other) {
+            Matrix copy(other);
+            swap(*this, copy);
+        }
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (Matrix&& rhs)
@@ -319,11 +326,11 @@ template <class T, class P>
 void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
-    this->full_size_ = nbRows * nbColumns;
+    // the storage is first: nothing is changed if an allocation fails
+    dimension const newDimension(nbRows, nbColumns);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, newDimension.getMinorDimension() + 1);
+    dimension::operator=(newDimension);
     contentsChanged();
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 0acb4a2..98c6788 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -113,9 +113,15 @@ public:
     {}
 
     void resize(IndexType nbOfValues, IndexType nbOfOffsets) {
-        value_.resize(nbOfValues);
-        key_.resize(nbOfValues);
-        offset_.resize(nbOfOffsets);
+        bool const newValues = IndexType(value_.size()) != nbOfValues;
+        bool const newOffsets = IndexType(offset_.size()) != nbOfOffsets;
+        // nothing is changed if an allocation fails
+        self other(newValues ? nbOfValues : 0, newOffsets ? nbOfOffsets : 0);
+        if (newValues) {
+            swap(value_, other.value_);
+            swap(key_, other.key_);
+        }
+        if (newOffsets) swap(offset_, other.offset_);
     }
 
     /// Keep only the first nbOfValues elements
-- 
2.43.0


From 1d1d86864781164566cbf6f79749c69121a5cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 52/52] fix: failed allocation leaves a dense matrix with new
 dimensions and old elements

The default copy assignment and the resize of a blocked matrix changed the
dimensions before the memory was allocated.
---
 include/BlasBooster/Core/DenseMatrix.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index f283485..8ae79b7 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -217,8 +217,16 @@ public: // member functions
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (self const& other) = default;
+    /// Copy assignment operator, nothing is changed if the allocation fails
+    Matrix& operator = (self const& other) {
+        storage::operator=(other);
+        dimension::operator=(other);
+        leadingDimension::operator=(other);
+        unblockedDimension::operator=(other);
+        isAliased_ = other.isAliased_;
+        contentsChanged();
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (self&& rhs) BLASBOOSTER_NOEXCEPT {
@@ -770,10 +778,10 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    static_cast<storage*>(this)->resize(nbRows*nbColumns);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
 }
 
 template <class T, class P>
-- 
2.43.0

