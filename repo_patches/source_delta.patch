From c2b50e6a2c6ea5e0de338d6ad54aeefd7011c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 01/55] fix: subtracting a matrix from a zero matrix negates it

---
 include/BlasBooster/Core/BinaryFunctors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..d247654 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -309,6 +309,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
         C = B;
+        for (auto& value : C) UnaryOperation<Operation>()(value,value);
     }
 };
 
-- 
2.43.0


From 508365f1e3ad656e60aa43195405af96637d21f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 02/55] fix: sign of the difference of a sparse and a dense
 matrix

---
 include/BlasBooster/Core/BinaryFunctors.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index d247654..03965c6 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -287,8 +287,10 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
-        BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        // C = B or C = -B, followed by C += A
+        C = B;
+        for (auto& value : C) UnaryOperation<Operation>()(value,value);
+        BinaryAssignmentOperationFunctor<Plus,Dense,T3,P3,Sparse,T1,P1>()(C,A);
     }
 };
 
-- 
2.43.0


From 03443b421a877e836a55ac761282828e8691d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 03/55] fix: result of sparse addition and multiplication keeps
 uninitialised tail

---
 include/BlasBooster/Core/BinaryFunctors.h        |  2 ++
 include/BlasBooster/Core/Multiplication_Native.h |  2 ++
 include/BlasBooster/Core/SparseStorage.h         | 11 +++++++++++
 3 files changed, 15 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 03965c6..e720bc2 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..f861691 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,8 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..d89e78e 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -118,6 +118,17 @@ public:
         offset_.resize(nbOfOffsets);
     }
 
+    /// Keep only the first nbOfValues values and keys
+    void shrink(IndexType nbOfValues) {
+        if (nbOfValues >= nnz()) return;
+        Storage<ValueType,false,false,0> value(nbOfValues);
+        Storage<IndexType,false,false,0> key(nbOfValues);
+        std::copy_n(value_.begin(), nbOfValues, value.begin());
+        std::copy_n(key_.begin(), nbOfValues, key.begin());
+        swap(value_, value);
+        swap(key_, key);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
-- 
2.43.0


From b0030aa161c7c1869d98a0b46c4a9f3b56f8fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 04/55] fix: difference of two multiple matrices subtracts both
 parts

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index e720bc2..bbe2122 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -559,9 +559,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
-- 
2.43.0


From bae9451c7acc98254f03146bda24d269dce36088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 05/55] fix: compound assignment to a multiple matrix applied
 the operand twice

---
 include/BlasBooster/Core/BinaryFunctors.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index bbe2122..73219a5 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -525,7 +525,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -534,9 +533,7 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
     A.getMatrix1() += B.getMatrix2();
-    A.getMatrix2() += B.getMatrix2();
     return A;
 }
 
@@ -577,7 +574,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -586,9 +582,7 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
     A.getMatrix1() -= B.getMatrix2();
-    A.getMatrix2() -= B.getMatrix2();
     return A;
 }
 
-- 
2.43.0


From baad70e49db35e4e42ee89130dfb501bc791ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 06/55] fix: row-major sparse matrices have one offset per row

---
 include/BlasBooster/Core/BinaryFunctors.h | 9 +++++----
 include/BlasBooster/Core/SparseMatrix.h   | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 73219a5..dda1c37 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -269,7 +269,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getNbRows())
+        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getMajorDimension())
         {
             iterValueBCur = B.begin() + *iterOffsetBCur;
             iterKeyBCur = B.beginKey() + *iterOffsetBCur;
@@ -367,15 +367,16 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
         assert(A.getNbRows() == B.getNbRows());
         assert(A.getNbColumns() == B.getNbColumns());
 
-        size_t col(0);
+        size_t line(0);
         for (typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetCur(B.beginOffset()),
-            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++col)
+            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++line)
         {
             typename Matrix<Sparse,T2,P2>::const_iterator iterValueCur(B.begin() + *iterOffsetCur);
             typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyCur(B.beginKey() + *iterOffsetCur), iterKeyEnd(B.beginKey() + *(iterOffsetCur+1));
             for ( ; iterKeyCur != iterKeyEnd; ++iterKeyCur, ++iterValueCur)
             {
-                OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                OperationAssignment<Operation>()(std::is_same<typename P2::orientation, RowMajor>::value ?
+                    A(line,*iterKeyCur) : A(*iterKeyCur,line),*iterValueCur);
             }
         }
     }
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..2fe977d 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -167,7 +167,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1)
 {
     filler(*this);
 }
@@ -194,7 +194,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
@@ -266,7 +266,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From e9a7098c774aae4b6140cc1946521c67f0fe8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 07/55] fix: Eigen product of matrices with different precision
 does not compile

---
 include/BlasBooster/Core/Multiplication_Eigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Eigen.h b/include/BlasBooster/Core/Multiplication_Eigen.h
index 80f9b45..8c4220d 100644
--- a/include/BlasBooster/Core/Multiplication_Eigen.h
+++ b/include/BlasBooster/Core/Multiplication_Eigen.h
@@ -63,7 +63,7 @@ struct MultiplicationFunctor<Dense,float,P,Dense,double,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXd> eB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA.cast<double>() * eB;
     }
 };
 
@@ -83,7 +83,7 @@ struct MultiplicationFunctor<Dense,double,P,Dense,float,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXf> eB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA * eB.cast<double>();
     }
 };
 
-- 
2.43.0


From 0f274133e4f81f3226450d87b7545305c73d850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 08/55] fix: native product of row-major dense matrices read
 them as column-major

---
 include/BlasBooster/Core/Multiplication_Native.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index f861691..08d6c3b 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -101,7 +101,13 @@ template <class T1, class P1,
           class T2, class P2,
           class T3, class P3>
 struct MultiplicationFunctor<Dense,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
- : public GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>
+ : public std::conditional<
+       std::is_same<typename P1::orientation, ColumnMajor>::value and
+       std::is_same<typename P2::orientation, ColumnMajor>::value and
+       std::is_same<typename P3::orientation, ColumnMajor>::value,
+       GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>,
+       GeneralDenseMultiplicationFunctorUsingCursor<T1,P1,T2,P2,T3,P3>
+   >::type
 {};
 
 /// Matrix multiplication specialized for DynamicMatrix Dense, Dense.
-- 
2.43.0


From 1321454a6d38f230aeba803055b86847540f71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 09/55] fix: subtracting a multiple matrix which contains the
 left operand

---
 include/BlasBooster/Core/BinaryFunctors.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index dda1c37..033e154 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -566,8 +566,7 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> co
 template <class M1, class T1, class P1, class X1, class X2>
 inline Matrix<M1,T1,P1>& operator -= (Matrix<M1,T1,P1>& A, MultipleMatrix<X1,X2> const& B)
 {
-    A -= B.getMatrix1();
-    return A -= B.getMatrix2();
+    return A -= B.getMatrix1() + B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
-- 
2.43.0


From 0f645913178a85836d06aaa79e949b0bdefa3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 10/55] fix: swapped, moved and transposed matrices keep a
 consistent size

---
 include/BlasBooster/Core/DenseMatrix.h   | 12 ++++++------
 include/BlasBooster/Core/SparseMatrix.h  |  3 +--
 include/BlasBooster/Core/Transposition.h |  1 +
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..091ecfe 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -199,6 +199,8 @@ public: // member functions
     /// Move constructor
     Matrix(self&& other)
      : dimension(std::move(other)),
+       leadingDimension(std::move(other)),
+       unblockedDimension(std::move(other)),
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
@@ -286,12 +288,10 @@ public: // member functions
 
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
-        swap(a.data_,b.data_);
-        swap(a.size_,b.size_);
-        swap(a.ownMemory_,b.ownMemory_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
-        //swap(a.storage,b.storage);
+        swap(static_cast<dimension&>(a),static_cast<dimension&>(b));
+        swap(static_cast<leadingDimension&>(a),static_cast<leadingDimension&>(b));
+        swap(static_cast<unblockedDimension&>(a),static_cast<unblockedDimension&>(b));
+        swap(static_cast<storage&>(a),static_cast<storage&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 2fe977d..4d5378c 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -128,8 +128,7 @@ public:
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
+        swap(static_cast<dimension&>(a),static_cast<dimension&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..69fcd14 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -35,6 +35,7 @@ template <class T, class P>
 Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
 {
     Matrix<Sparse,T,P> transposedMatrix(matrix.getNbColumns(), matrix.getNbRows(), matrix.nnz());
+    transposedMatrix.shrink(matrix.nnz()); // no element means full storage for the constructor
 
     typedef typename Matrix<Sparse,T,P>::IndexType IndexType;
     typedef typename Matrix<Sparse,T,P>::iterator iterator;
-- 
2.43.0


From 21b8578e81f1a4a829155e430a1ff3d26886685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 11/55] fix: dense and sparse conversions honour the value
 checker

---
 include/BlasBooster/Core/DenseMatrix.h  | 36 +++++++++++++++++++------
 include/BlasBooster/Core/SparseMatrix.h | 21 ++++++++++++++-
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 091ecfe..027b234 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -115,8 +115,8 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with same orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             std::is_same<typename P::orientation, typename P2::orientation>::value and
             !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -124,14 +124,20 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with different orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             !std::is_same<typename P::orientation, typename P2::orientation>::value and
             !P2::isSubMatrix and !P2::isBlockedMatrix
         >::type* = 0
     );
 
+    /// Conversion from DenseMatrix, elements rejected by the valueChecker are zero
+    template <class T2, class P2, class ValueChecker>
+    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+        typename std::enable_if<!P2::isSubMatrix and !P2::isBlockedMatrix>::type* = 0
+    );
+
     /// Conversion from SubDenseMatrix
     template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
@@ -454,8 +460,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
 
 // Conversion from DenseMatrix with same orientation
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         std::is_same<typename P::orientation, typename P2::orientation>::value and
         !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -466,8 +472,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
 
 // Conversion from DenseMatrix with different orientation
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         !std::is_same<typename P::orientation, typename P2::orientation>::value and
         !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -476,6 +482,20 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     storage(transpose(other))
 {}
 
+// Conversion from DenseMatrix, elements rejected by the valueChecker are zero
+template <class T, class P>
+template <class T2, class P2, class ValueChecker>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+    typename std::enable_if<!P2::isSubMatrix and !P2::isBlockedMatrix>::type*)
+  : Matrix(other)
+{
+    for (size_t column(0); column != other.getNbColumns(); ++column) {
+        for (size_t row(0); row != other.getNbRows(); ++row) {
+            if (!valueChecker(other(row,column))) (*this)(row,column) = 0.0;
+        }
+    }
+}
+
 /// Conversion from SubDenseMatrix
 template <class T, class P>
 template <class T2, class P2, class ValueChecker>
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 4d5378c..3fe48d5 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -177,7 +177,26 @@ template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
    storage(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other))
-{}
+{
+    if (this->sizeOffset() == 0) return;
+
+    // keep only the elements accepted by the valueChecker
+    IndexType cur(0), keep(0);
+    for (index_iterator iterOffsetCur(this->beginOffset()), iterOffsetEnd(this->endOffset() - 1);
+        iterOffsetCur != iterOffsetEnd; ++iterOffsetCur)
+    {
+        *iterOffsetCur = keep;
+        for (IndexType end(*(iterOffsetCur + 1)); cur != end; ++cur)
+        {
+            if (!valueChecker(this->begin()[cur])) continue;
+            this->begin()[keep] = this->begin()[cur];
+            this->beginKey()[keep] = this->beginKey()[cur];
+            ++keep;
+        }
+    }
+    *(this->endOffset() - 1) = keep;
+    this->shrink(keep);
+}
 
 // Conversion from DenseMatrix
 template <class T, class P>
-- 
2.43.0


From 067d0904074c48d7d25f15add105ca1bb68f7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 12/55] fix: occupation threshold of zero matrices in single
 precision

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From 6d623b5f3e1a10050be40c136230466bb5477d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 13/55] fix: conversion to a single precision sparse matrix
 drops the large elements

---
 include/BlasBooster/Core/MatrixConverter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index cac376e..b0cf6ce 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -83,8 +83,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,float,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,float,P2>(matrix,
-            AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound>(
-                threshold.getSignificanceThreshold<double>(),threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 8f26910a586dc58b79aae836fa69792e3a3edfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 14/55] fix: conversion to a double precision sparse matrix
 drops significant elements

---
 include/BlasBooster/Core/MatrixConverter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index b0cf6ce..178079f 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -72,7 +72,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,double,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,double,P2>(matrix,
-            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 8052373791424a4fdcba6e2f9a7f15aaef42dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 15/55] fix: detection arrays of column-major matrices mixed
 rows and columns

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..fbba7e7 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -115,23 +115,13 @@ std::tuple<std::vector<T>, std::vector<T>> BlockSizeGenerator::get_detection_arr
     std::vector<T> row_detect(matrix.getNbRows() - 1, 0.0);
     std::vector<T> col_detect(matrix.getNbColumns() - 1, 0.0);
 
-    typename Matrix<Dense,T,P>::const_iterator iter1(matrix_log.begin()),
-        iter2(matrix_log.begin() + 1), iter3(matrix_log.begin() + matrix.getNbColumns());
-
-    for (size_t i = 0; i != matrix.getNbRows() - 1; ++i)
+    for (size_t i = 0; i != matrix.getNbRows(); ++i)
     {
-        for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2, ++iter3)
+        for (size_t j = 0; j != matrix.getNbColumns(); ++j)
         {
-            row_detect[i] += std::abs(*iter1 - *iter3);
-            col_detect[j] += std::abs(*iter1 - *iter2);
+            if (i + 1 != matrix.getNbRows()) row_detect[i] += std::abs(matrix_log(i,j) - matrix_log(i+1,j));
+            if (j + 1 != matrix.getNbColumns()) col_detect[j] += std::abs(matrix_log(i,j) - matrix_log(i,j+1));
         }
-        row_detect[i] += std::abs(*iter1 - *iter3);
-        ++iter1, ++iter2, ++iter3;
-    }
-
-    for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2)
-    {
-        col_detect[j] += std::abs(*iter1 - *iter2);
     }
 
     return std::make_tuple(row_detect, col_detect);
-- 
2.43.0


From 4b9d4cbae89fa05296755fb2c9bbe6886aa36e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 16/55] fix: block sizes when no border of a group is
 admissible

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index fbba7e7..a2bbd14 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -170,6 +170,7 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            if (largest_min == 0) break; // no index of this group divides a block
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From 4093682dc123afcf886bf5495b32314c79b0a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 17/55] fix: norm of multiple matrices was 0 and the type
 counters were not initialised

---
 include/BlasBooster/Core/GenerateTypeMatrix.h |  2 +-
 include/BlasBooster/Core/MultipleMatrix.h     | 11 ++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index f3bce09..78b7800 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -3,6 +3,7 @@
 #include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/DynamicMatrixTypeList.h"
 #include "BlasBooster/Core/MatrixBase.h"
+#include "BlasBooster/Core/NormPolicy.h"
 #include "BlasBooster/Utilities/TypeList.h"
 #include "BlasBooster/Utilities/TypeName.h"
 #include <memory>
@@ -84,16 +85,12 @@ struct MultipleMatrix
 
     double getNorm() const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return 0.0;
+        return norm<typename T1::parameter::NormType>(*this);
     }
 
-    bool isNormLargerThan(double /*value*/) const
+    bool isNormLargerThan(double value) const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return false;
+        return getNorm() > value;
     }
 
     const std::type_info& getTypeInfo() const { return typeid(*this); }
-- 
2.43.0


From 3bcd498c7655f96af895f7ee1be49bb22980c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 18/55] fix: size of blocked and zero matrices after resize

---
 include/BlasBooster/Core/DenseMatrix.h | 3 +--
 include/BlasBooster/Core/ZeroMatrix.h  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 027b234..02221da 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -722,8 +722,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..fc70ed7 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From 6f22b09dec397766faa28ccb06dd0e6de1d7933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 19/55] fix: norms of multiple, single precision and zero
 matrices

---
 include/BlasBooster/Core/Norm.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..284f260 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -16,7 +16,16 @@ struct NormFunctor
     }
 };
 
-/// Specialization for Matrix<Zero>
+/// Specializations for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormOne, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const&) const
+    {
+        return 0.0;
+    }
+};
+
 template <class P>
 struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
 {
@@ -26,6 +35,15 @@ struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
     }
 };
 
+template <class P>
+struct NormFunctor<NormMax, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const&) const
+    {
+        return 0.0;
+    }
+};
+
 /// norm function wrapper, forwarded to the NormFunctor for partial specialization
 template <class NormType, class MatrixType>
 inline double norm(MatrixType const& m)
@@ -73,7 +91,7 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
         //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
@@ -133,7 +151,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, std::abs(*iterCur));
+            norm = std::max<double>(norm, std::abs(*iterCur));
         }
         return norm;
     }
-- 
2.43.0


From d071aec248ee3d12e6e0200be8a1cf43aa741965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 20/55] fix: norm and occupation were those of an earlier
 content of the matrix

---
 include/BlasBooster/Core/MatrixConverter.h  | 24 ++++++++++++-----
 include/BlasBooster/Core/NormPolicy.h       | 29 +++------------------
 include/BlasBooster/Core/OccupationPolicy.h | 19 +-------------
 3 files changed, 21 insertions(+), 51 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index 178079f..dc929e1 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -16,10 +16,16 @@ struct IsConvertible
     template <class M, class T, class P>
     bool operator () (Matrix<M,T,P> const& matrix, Threshold const& threshold) const
     {
-        return matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<double>()))
-            <= threshold.getOccupationThreshold<MatrixType,double>()
-            and matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<float>()))
-            <= threshold.getOccupationThreshold<MatrixType,float>();
+        return operator () (
+            matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<double>())),
+            matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<float>())),
+            threshold);
+    }
+
+    bool operator () (double occupationDouble, double occupationFloat, Threshold const& threshold) const
+    {
+        return occupationDouble <= threshold.getOccupationThreshold<MatrixType,double>()
+            and occupationFloat <= threshold.getOccupationThreshold<MatrixType,float>();
     }
 };
 
@@ -28,18 +34,22 @@ template <class M, class T, class P>
 struct IsConvertibleChecker
 {
     IsConvertibleChecker(Matrix<M,T,P> const& matrix, Threshold const& threshold)
-     : matrix_(matrix), threshold_(threshold)
+     : occupationDouble_(matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<double>()))),
+       occupationFloat_(matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<float>()))),
+       threshold_(threshold)
     {}
 
     template <class DynamicMatrixType>
     bool operator () (DynamicMatrixType* = 0) const
     {
-        return IsConvertible<DynamicMatrixType>()(matrix_,threshold_);
+        return IsConvertible<DynamicMatrixType>()(occupationDouble_,occupationFloat_,threshold_);
     }
 
 private:
 
-    Matrix<M,T,P> const& matrix_;
+    double occupationDouble_;
+
+    double occupationFloat_;
 
     Threshold const& threshold_;
 };
diff --git a/include/BlasBooster/Core/NormPolicy.h b/include/BlasBooster/Core/NormPolicy.h
index 241304a..1141d7a 100644
--- a/include/BlasBooster/Core/NormPolicy.h
+++ b/include/BlasBooster/Core/NormPolicy.h
@@ -13,44 +13,21 @@ class NormPolicy
 {
 public:
 
-    NormPolicy()
-     : norm_(0.0), isNormUpToDate_(false)
-    {}
-
     double getNorm() const
     {
-        if (!isNormUpToDate_) updateNorm();
-        return norm_;
+        return norm<NormType>(*(static_cast<const Derived*>(this)));
     }
 
     bool isNormLargerThan(double value) const
     {
-        if (!isNormUpToDate_) updateNorm();
-        return norm_ > value;
+        return getNorm() > value;
     }
 
     bool isNormSmallerThan(double value) const
     {
-        if (!isNormUpToDate_) updateNorm();
-        return norm_ < value;
-    }
-
-    bool isNormUpToDate() const { return isNormUpToDate_; };
-
-    void updateNorm() const
-    {
-        if (!isNormUpToDate_) {
-            norm_ = norm<NormType>(*(static_cast<const Derived*>(this)));
-            isNormUpToDate_ = true;
-        }
+        return getNorm() < value;
     }
 
-private:
-
-    mutable double norm_;
-
-    mutable bool isNormUpToDate_;
-
 };
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index 0b4a084..cd1c14b 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -3,7 +3,6 @@
 #include "AbsoluteValueRangeChecker.h"
 #include "Occupation.h"
 #include "Threshold.h"
-#include <map>
 
 namespace BlasBooster {
 
@@ -18,14 +17,7 @@ public:
     template <class ValueChecker>
     size_t getNbOfSignificantElements(ValueChecker const& valueChecker) const
     {
-        auto key = std::shared_ptr<ValueCheckerBase>(new ValueChecker(valueChecker));
-        if (nbDesiredElementsMap_.count(key)) {
-            return nbDesiredElementsMap_[key];
-        } else {
-            size_t nbDesiredElements = countDesiredElements(*(static_cast<const Derived*>(this)),valueChecker);
-            nbDesiredElementsMap_[key] = nbDesiredElements;
-            return nbDesiredElements;
-        }
+        return countDesiredElements(*(static_cast<const Derived*>(this)),valueChecker);
     }
 
     /// Return occupation of values which fulfill the valueChecker
@@ -48,15 +40,6 @@ public:
         return getOccupation(valueChecker) < value;
     }
 
-    void reset()
-    {
-        nbDesiredElementsMap_.clear();
-    }
-
-private:
-
-    mutable std::map<std::shared_ptr<ValueCheckerBase>,size_t,ValueCheckerLess> nbDesiredElementsMap_;
-
 };
 
 } // namespace BlasBooster
-- 
2.43.0


From 306ed8c1b064c60ebb3c9ec9624d5ff877490094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 21/55] fix: occupation of dynamic, zero and multiple matrices

---
 .../BlasBooster/Core/DynamicMatrixFunctions.h |  2 +-
 include/BlasBooster/Core/MultipleMatrix.h     | 20 +++++++++----------
 include/BlasBooster/Core/Occupation.h         |  4 ++--
 include/BlasBooster/Core/ZeroMatrix.h         | 12 +++++++----
 4 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/include/BlasBooster/Core/DynamicMatrixFunctions.h b/include/BlasBooster/Core/DynamicMatrixFunctions.h
index 838e91d..bbf78ad 100644
--- a/include/BlasBooster/Core/DynamicMatrixFunctions.h
+++ b/include/BlasBooster/Core/DynamicMatrixFunctions.h
@@ -147,7 +147,7 @@ struct DynamicIsOccupationLargerThan
     template <class T>
     result_type operator () (T* = 0) const
     {
-        return std::static_pointer_cast<T>(dynMatrix_)->isOccupationLargerThan(valueChecker_);
+        return std::static_pointer_cast<T>(dynMatrix_)->isOccupationLargerThan(value_,valueChecker_);
     }
 
     DynamicMatrix dynMatrix_;
diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index 78b7800..d43fa28 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -65,22 +65,22 @@ struct MultipleMatrix
     T1& getMatrix1() const { return *ptrT1_; }
     T2& getMatrix2() const { return *ptrT2_; }
 
-    size_t getNbOfSignificantElements(double threshold = 0.0) const {
-        return ptrT1_->getNbOfSignificantElements(threshold) + ptrT2_->getNbOfSignificantElements(threshold);
+    template <class ValueChecker>
+    size_t getNbOfSignificantElements(ValueChecker const& valueChecker) const
+    {
+        return countDesiredElements(getMatrix1() + getMatrix2(), valueChecker);
     }
 
-    double getOccupation(double threshold = 0.0) const
+    template <class ValueChecker>
+    double getOccupation(ValueChecker const& valueChecker) const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return 0.0;
+        return static_cast<double>(getNbOfSignificantElements(valueChecker)) / getSize();
     }
 
-    bool isOccupationLargerThan(double value, double threshold = 0.0) const
+    template <class ValueChecker>
+    bool isOccupationLargerThan(double value, ValueChecker const& valueChecker) const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return false;
+        return getOccupation(valueChecker) > value;
     }
 
     double getNorm() const
diff --git a/include/BlasBooster/Core/Occupation.h b/include/BlasBooster/Core/Occupation.h
index 7c98008..1e4d3c7 100644
--- a/include/BlasBooster/Core/Occupation.h
+++ b/include/BlasBooster/Core/Occupation.h
@@ -51,7 +51,7 @@ inline size_t countDesiredElements(Matrix<M,T,P> const& A, ValueChecker const& v
 template <class ValueChecker>
 struct DynamicCountDesiredElementsFunctor
 {
-    typedef double result_type;
+    typedef size_t result_type;
 
     DynamicCountDesiredElementsFunctor(DynamicMatrix const& dynMatrix, ValueChecker const& valueChecker)
      : dynMatrix_(dynMatrix), valueChecker_(valueChecker)
@@ -70,7 +70,7 @@ struct DynamicCountDesiredElementsFunctor
 template <class ValueChecker>
 inline size_t countDesiredElements(DynamicMatrix const& dynMatrix, ValueChecker const& valueChecker)
 {
-    return exec_if<TypeList>(TypeChecker(dynMatrix->getTypeIndex()),DynamicCountDesiredElementsFunctor<ValueChecker>(dynMatrix,valueChecker));
+    return exec_if<DynamicMatrixTypeList>(TypeChecker(dynMatrix->getTypeIndex()),DynamicCountDesiredElementsFunctor<ValueChecker>(dynMatrix,valueChecker));
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index fc70ed7..0170290 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -128,22 +128,26 @@ class OccupationPolicy<Matrix<Zero,NullType,P> >
 {
 public:
 
-    size_t getNbOfSignificantElements(double threshold = 0.0) const
+    template <class ValueChecker>
+    size_t getNbOfSignificantElements(ValueChecker const&) const
     {
         return 0;
     }
 
-    double getOccupation(double threshold = 0.0) const
+    template <class ValueChecker>
+    double getOccupation(ValueChecker const&) const
     {
         return 0.0;
     }
 
-    bool isOccupationLargerThan(double value, double threshold = 0.0) const
+    template <class ValueChecker>
+    bool isOccupationLargerThan(double value, ValueChecker const&) const
     {
         return 0.0 > value;
     }
 
-    bool isOccupationSmallerThan(double value, double threshold = 0.0) const
+    template <class ValueChecker>
+    bool isOccupationSmallerThan(double value, ValueChecker const&) const
     {
         return 0.0 < value;
     }
-- 
2.43.0


From 5f082a015ec89802d993b4558df5c4ebd692f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 22/55] fix: transposing a sparse matrix without rows ran over
 the end of the offsets

---
 include/BlasBooster/Core/Transposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 69fcd14..4b99206 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -60,7 +60,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
     }
 
     // accumulate number of elements to new offsets of transposed matrix
-    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 2),
+    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(iterOffsetTransBeg1),
         iterOffsetTransEnd(transposedMatrix.endOffset()); iterOffsetTransCur != iterOffsetTransEnd; ++iterOffsetTransCur )
     {
         *iterOffsetTransCur += *(iterOffsetTransCur - 1);
-- 
2.43.0


From d3f260fce1eef1afd801087b43451da68cc07884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 23/55] fix: comparing range checkers of different kinds cast
 to the wrong type

---
 .../Core/AbsoluteValueRangeChecker.h          | 30 +++++++------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index c1d6fb6..e2ddba6 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -65,10 +65,8 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,threshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).threshold_);
+        if (id_ != other.getID()) return id_ < other.getID();
+        return threshold_ < static_cast<AbsoluteValueRangeChecker const&>(other).threshold_;
     }
 
     size_t getID() const { return id_; }
@@ -109,11 +107,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
-            static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
+        if (id_ != other.getID()) return id_ < other.getID();
+        AbsoluteValueRangeChecker const& rhs = static_cast<AbsoluteValueRangeChecker const&>(other);
+        return std::tie(lowerThreshold_,upperThreshold_) < std::tie(rhs.lowerThreshold_,rhs.upperThreshold_);
     }
 
     size_t getID() const { return id_; }
@@ -155,11 +151,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
-            static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
+        if (id_ != other.getID()) return id_ < other.getID();
+        AbsoluteValueRangeChecker const& rhs = static_cast<AbsoluteValueRangeChecker const&>(other);
+        return std::tie(lowerThreshold_,upperThreshold_) < std::tie(rhs.lowerThreshold_,rhs.upperThreshold_);
     }
 
     size_t getID() const { return id_; }
@@ -201,11 +195,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
-            static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
+        if (id_ != other.getID()) return id_ < other.getID();
+        AbsoluteValueRangeChecker const& rhs = static_cast<AbsoluteValueRangeChecker const&>(other);
+        return std::tie(lowerThreshold_,upperThreshold_) < std::tie(rhs.lowerThreshold_,rhs.upperThreshold_);
     }
 
     size_t getID() const { return id_; }
-- 
2.43.0


From 78055560c2c7a924aabdb339e2c11f86857955e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 24/55] fix: missing includes in Norm.h

---
 include/BlasBooster/Core/Norm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index 284f260..546910c 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -1,7 +1,9 @@
 #pragma once
 
+#include "BlasBooster/Core/DynamicMatrix.h"
 #include "BlasBooster/Utilities/exec_dyn.h"
 #include "BlasBooster/Utilities/TypeList.h"
+#include <functional>
 
 namespace BlasBooster {
 
-- 
2.43.0


From 7c1a3a00b138eaa1176ed9416a349a43c2cff2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 25/55] fix: heap storages lost, shared or leaked memory in
 copies, moves and resizes

---
 include/BlasBooster/Core/Storage.h | 38 ++++++++++++------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..a264c41 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -161,10 +161,10 @@ public:
 
     /// Move constructor
     Storage( Storage&& rhs )
-     : data_(rhs.data_), ownMemory_(rhs.ownMemory_)
+     : data_(new T[size_]), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Move constructor is called.");
-        rhs.ownMemory_ = false;
+        swap(*this,rhs);
     }
 
     /// Conversion constructor
@@ -192,7 +192,6 @@ public:
         if ( this != &rhs ) {
             if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
             std::copy_n(rhs.begin(),rhs.size_,begin());
-            ownMemory_ = true;
         }
         return *this;
     }
@@ -275,7 +274,6 @@ protected:
     void load(Archive & ar, const unsigned int version)
     {
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
     }
 
     T* data_;
@@ -328,7 +326,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
@@ -341,7 +339,7 @@ public:
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move constructor is called.");
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
     }
 
     /// Conversion constructor
@@ -365,24 +363,16 @@ public:
     void resize(size_t size) {
         if (size_ == size) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
-        if (data_) deallocate<T>(data_);
-        data_ = allocate<T>(size);
-        size_ = size;
+        self tmp(size);
+        swap(*this, tmp);
     }
 
     /// Copy assignment
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
         if ( this != &rhs ) {
-            if (ownMemory_) deallocate<T>(data_);
-            if (rhs.ownMemory_) {
-                data_ = allocate<T>(rhs.size_);
-                std::copy(rhs.begin(),rhs.end(),begin());
-            } else {
-                data_ = rhs.data_;
-            }
-            size_ = rhs.size_;
-            ownMemory_ = rhs.ownMemory_;
+            self tmp = rhs.ownMemory_ ? self(rhs) : self(rhs.data_, rhs.size_);
+            swap(*this, tmp);
         }
         return *this;
     }
@@ -390,6 +380,7 @@ public:
     /// Move assignment
     Storage& operator = ( self&& rhs ) BLASBOOSTER_NOEXCEPT {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move assignment is called.");
+        if (this == &rhs) return *this;
         // clear own resources
         if (ownMemory_) deallocate<T>(data_);
         // steal other resources
@@ -399,7 +390,7 @@ public:
         // clean other resources
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
         return *this;
     }
 
@@ -485,10 +476,11 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
-        ar >> size_;
-        data_ = allocate<T>(size_);
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
+        size_t size;
+        ar >> size;
+        self tmp(size);
+        for ( size_t i(0); i != size; ++i ) ar >> tmp.data_[i];
+        swap(*this, tmp);
     }
 
     T* data_;
-- 
2.43.0


From ce232abb0914ddb2a5a353ea1d6fad4820a21ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 26/55] fix: striped storage iterators could not go back from
 the end

---
 include/BlasBooster/Core/Storage.h         | 17 +++++++++++------
 include/BlasBooster/Core/StripedIterator.h |  4 ++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index a264c41..04e773e 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -586,27 +586,27 @@ public:
     }
 
     iterator rbegin() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + size_ + separators() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rbegin() const {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + size_ + separators() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator end() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + size_ + separators(), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + size_ + separators(), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rend() const {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     size_t size() const {
@@ -641,6 +641,11 @@ protected:
         ar & separatorSize_;
     }
 
+    /// Number of skipped elements between the first and the last element
+    size_t separators() const {
+        return size_ == 0 ? 0 : (nbBlocks_-1) * separatorSize_;
+    }
+
     T* data_;
 
     size_t size_;
diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..c3b13ff 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -49,7 +49,7 @@ public:
     void increment()
     {
         if (position_ == continuousSizeMinus1_) {
-            if (static_cast<size_t>(++block_) == nbBlocks_) ++iter_;
+            if (++block_ == 0 or static_cast<size_t>(block_) == nbBlocks_) ++iter_;
             else iter_ += separatorSizePlus1_;
             position_ = 0;
         } else {
@@ -61,7 +61,7 @@ public:
     void decrement()
     {
         if (position_ == 0) {
-            if (--block_ == -1) --iter_;
+            if (--block_ == -1 or static_cast<size_t>(block_) + 1 == nbBlocks_) --iter_;
             else iter_ -= separatorSizePlus1_;
             position_ = continuousSizeMinus1_;
         } else {
-- 
2.43.0


From 440b433f5a7d6b51242616e533f2bf06d1a7e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 27/55] fix: sub-matrices of sub-matrices and of row-major
 matrices

---
 include/BlasBooster/Core/DenseMatrix.h | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 02221da..1d17a36 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -435,10 +435,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
    // TODO: avoid const_cast
-   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getNbRows()),
-       nbRows, nbColumns, other.getNbRows() - nbRows)
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
+       nbRows, nbColumns, other.getLdRows() - nbRows)
 {}
 
 template <class T, class P>
@@ -451,11 +451,9 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
-   storage(
-       const_cast<T2*>(other.getDataPointer()) + beginRow * other.getNbColumns() + beginColumn,
-       other.getSize() - beginRow * other.getNbColumns() - beginColumn
-   )
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow * other.getLdColumns() + beginColumn),
+       nbColumns, nbRows, other.getLdColumns() - nbColumns)
 {}
 
 // Conversion from DenseMatrix with same orientation
@@ -529,15 +527,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     storage(other.getSize())
 {
     typename storage::iterator iterCur(this->begin());
-    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin());
-
-    typename P2::IndexType leadingDifference(other.getLdColumns() - other.getNbColumns());
+    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin()), otherIterEnd(other.end());
 
-    for ( size_t rowCur(0), rowEnd(other.getNbRows()); rowCur != rowEnd; ++rowCur ) {
-        for ( size_t columnCur(0), columnEnd(other.getNbColumns()); columnCur != columnEnd; ++columnCur ) {
-            *iterCur++ = *otherIterCur++;
-        }
-        otherIterCur += leadingDifference;
+    for ( ; otherIterCur != otherIterEnd; ++otherIterCur, ++iterCur) {
+        *iterCur = valueChecker(*otherIterCur) ? *otherIterCur : 0.0;
     }
 }
 
-- 
2.43.0


From d3e2db4a0d2790d0ba8c9e5f40f87187e79df5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 28/55] fix: equal compares the elements of matrices of any
 orientation and type

---
 include/BlasBooster/Core/DenseMatrix.h               | 10 +++++++---
 include/BlasBooster/Core/SparseMatrix.h              | 12 ++++++++++++
 .../Utilities/EqualWithinNumericalAccuracy.h         |  5 ++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 1d17a36..50cd822 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -254,9 +254,13 @@ public: // member functions
 
     template <class T2, class P2>
     bool equal(Matrix<Dense,T2,P2> const& rhs) const {
-        return storage::equal(rhs)
-            and this->getNbRows() == rhs.getNbRows()
-            and this->getNbColumns() == rhs.getNbColumns();
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        for (size_t column(0); column != this->getNbColumns(); ++column) {
+            for (size_t row(0); row != this->getNbRows(); ++row) {
+                if (!equalWithinNumericalAccuracy((*this)(row,column), rhs(row,column))) return false;
+            }
+        }
+        return true;
     }
 
     template <class T2, class P2>
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 3fe48d5..eddc8fa 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -119,6 +119,18 @@ public:
         return storage::operator==(rhs) and dimension::operator==(rhs);
     }
 
+    template <class T2, class P2>
+    bool equal(Matrix<Sparse,T2,P2> const& rhs) const {
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        if constexpr (std::is_same<typename P::orientation, typename P2::orientation>::value) return storage::equal(rhs);
+        else return storage::equal(Matrix<Sparse,T2,P>(rhs));
+    }
+
+    template <class T2, class P2>
+    bool notEqual(Matrix<Sparse,T2,P2> const& rhs) const {
+        return !equal(rhs);
+    }
+
     const std::type_info& getTypeInfo() const { return typeid(*this); }
 
     size_t getTypeIndex() const { return typeIndex_; }
diff --git a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
index aaf7515..12d3329 100644
--- a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
+++ b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <algorithm>
+#include <cmath>
 #include <complex>
+#include <type_traits>
 
 namespace BlasBooster {
 
@@ -17,7 +19,8 @@ template <> inline double numericalAccuracy< unsigned long >() { return 0.0; }
 template <class T1, class T2>
 bool equalWithinNumericalAccuracy(T1 const& v1, T2 const& v2)
 {
-    return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
+    if constexpr (std::is_integral<T1>::value and std::is_integral<T2>::value) return v1 == v2;
+    else return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 3d56682e989dfabd46f73705684437321074e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 29/55] fix: fixed-size matrices did not compile and kept their
 size when transposed

---
 include/BlasBooster/Core/Dimension.h     | 15 +++++++++++++--
 include/BlasBooster/Core/Transposition.h | 20 +++++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/Dimension.h b/include/BlasBooster/Core/Dimension.h
index e9a61cd..65e6181 100644
--- a/include/BlasBooster/Core/Dimension.h
+++ b/include/BlasBooster/Core/Dimension.h
@@ -28,15 +28,26 @@ template <class SizeArg, class OrientationArg>
 struct Dimension
 {
     static const bool fixed = true;
-    static const size_t nbRows = SizeArg::NbRows;
-    static const size_t nbColumns = SizeArg::NbColumns;
+    static const size_t nbRows = SizeArg::nbRows;
+    static const size_t nbColumns = SizeArg::nbColumns;
     static const size_t size = nbRows * nbColumns;
 
     Dimension(size_t = 0, size_t = 0) {}
 
+    bool operator == (Dimension const&) const { return true; }
+    bool operator != (Dimension const&) const { return false; }
+
     size_t getNbRows() const { return nbRows; }
     size_t getNbColumns() const { return nbColumns; }
     size_t getSize() const { return size; }
+
+    size_t getMajorDimension() const {
+        return std::is_same<OrientationArg, RowMajor>::value ? nbColumns : nbRows;
+    }
+
+    size_t getMinorDimension() const {
+        return std::is_same<OrientationArg, RowMajor>::value ? nbRows : nbColumns;
+    }
 };
 
 template <class OrientationArg>
diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 4b99206..09cb8f7 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -5,15 +5,29 @@
 
 namespace BlasBooster {
 
+/// Parameter of the transposed matrix, a fixed size has rows and columns exchanged
+template <class P>
+struct TransposedParameter
+{
+    typedef P type;
+};
+
+template <class I, class O, size_t NbRows, size_t NbColumns, class... Others>
+struct TransposedParameter<Parameter<I, O, FixedSize<NbRows, NbColumns>, Others...>>
+{
+    typedef Parameter<I, O, FixedSize<NbColumns, NbRows>, Others...> type;
+};
+
 template <class T, class P>
-Matrix<Dense,T,P> transpose(Matrix<Dense,T,P> const& matrix)
+Matrix<Dense,T,typename TransposedParameter<P>::type> transpose(Matrix<Dense,T,P> const& matrix)
 {
-    Matrix<Dense,T,P> transposedMatrix(matrix.getNbColumns(),matrix.getNbRows());
+    typedef Matrix<Dense,T,typename TransposedParameter<P>::type> TransposedMatrix;
+    TransposedMatrix transposedMatrix(matrix.getNbColumns(),matrix.getNbRows());
 
     typedef Cursor< const Matrix<Dense,T,P>, Direction::Row > RowCursor;
     typedef Cursor< RowCursor, Direction::Column > ColumnCursor;
 
-    typedef Cursor< Matrix<Dense,T,P>, Direction::Column > TransColumnCursor;
+    typedef Cursor< TransposedMatrix, Direction::Column > TransColumnCursor;
     typedef Cursor< TransColumnCursor, Direction::Row > TransRowCursor;
 
     RowCursor rowCur(matrix,0), rowEnd(matrix,matrix.getNbRows());
-- 
2.43.0


From b3c646aa5b9043e6564f071c833b3156e58abf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 30/55] fix: a truncated matrix file was imported with
 undefined elements

---
 include/BlasBooster/Core/MatrixFileIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..4faf0f4 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -49,6 +49,7 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
             is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
         }
     }
+    if (!is2) throw BlasBoosterException("Error reading file " + settings.filename);
 
     return is;
 }
-- 
2.43.0


From faf619c19082e0a6819853fde53929b371878f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 31/55] fix: fixed-size matrices could not be archived

---
 include/BlasBooster/Core/Dimension.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/BlasBooster/Core/Dimension.h b/include/BlasBooster/Core/Dimension.h
index 65e6181..8e4120a 100644
--- a/include/BlasBooster/Core/Dimension.h
+++ b/include/BlasBooster/Core/Dimension.h
@@ -48,6 +48,14 @@ struct Dimension
     size_t getMinorDimension() const {
         return std::is_same<OrientationArg, RowMajor>::value ? nbRows : nbColumns;
     }
+
+private:
+
+    friend class boost::serialization::access;
+
+    template <class Archive>
+    void serialize(Archive & ar, const unsigned int version)
+    {}
 };
 
 template <class OrientationArg>
-- 
2.43.0


From 56e9488264ceeb39d3ac8e2b2f56495b8a7471d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 32/55] fix: a pattern file which can't be written was not
 reported

---
 include/BlasBooster/Core/PatternGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/PatternGenerator.h b/include/BlasBooster/Core/PatternGenerator.h
index 8c79a20..258e3b7 100644
--- a/include/BlasBooster/Core/PatternGenerator.h
+++ b/include/BlasBooster/Core/PatternGenerator.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Utilities/BlasBoosterException.h"
 #include "BlasBooster/Utilities/FileIO.h"
 #include "BlasBooster/Utilities/Filesystem.h"
 #include "BrainTwister/Record.h"
@@ -45,6 +46,7 @@ template <class T, class P>
 void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::path const& file) const
 {
     std::ofstream outfile(file.string());
+    if (!outfile) throw BlasBoosterException("Can't open file " + file.string());
 
     // <width> <height> <colors> <char on pixel>
     outfile << "/* XPM */\nstatic char * matrix_xpm[] = {\n\""
-- 
2.43.0


From 61b87272e180596f2641664768dd832b44c0e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 33/55] fix: complex dot products of the OpenBLAS interface
 returned nothing

---
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp       | 21 ++++++++++++++-----
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp.pre   | 21 ++++++++++++++-----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
index a2ee7ce..81aa480 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
@@ -1,7 +1,18 @@
 #include "BlasBooster/BlasInterface/Blas.h"
 #include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
 
-extern "C" void openblas_set_num_threads(int nbThreads);
+extern "C" {
+
+void openblas_set_num_threads(int nbThreads);
+
+// The Fortran functions return the complex result by value or by an additional
+// argument, depending on the compiler, therefore the C interface is used.
+void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+
+} // extern "C"
 
 namespace BlasBooster {
 
@@ -938,7 +949,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -946,7 +957,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -954,7 +965,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -962,7 +973,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
index f0c6ea4..3f1a678 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
@@ -1,7 +1,18 @@
 #include "BlasBooster/BlasInterface/Blas.h"
 #include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
 
-extern "C" void openblas_set_num_threads(int nbThreads);
+extern "C" {
+
+void openblas_set_num_threads(int nbThreads);
+
+// The Fortran functions return the complex result by value or by an additional
+// argument, depending on the compiler, therefore the C interface is used.
+void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+
+} // extern "C"
 
 namespace BlasBooster {
 
@@ -28,7 +39,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -36,7 +47,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -44,7 +55,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -52,7 +63,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
-- 
2.43.0


From 8151ffc02695b535de4d7b6090cff2b658afdd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 34/55] fix: products of empty matrices passed a leading
 dimension of zero to the MKL

---
 .../Core/Multiplication_IntelMKL.h            | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index f162a06..769855f 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -33,6 +33,10 @@ struct MultiplicationFunctor<Dense,T,P,Dense,T,P,Dense,T,P,IntelMKL>
         T alpha = 1.0;
         T beta = 0.0;
 
+        // A leading dimension of zero is not allowed, also for matrices without rows.
+        int lda = std::max<int>(A.getNbRows(), 1);
+        int ldb = std::max<int>(A.getNbColumns(), 1);
+
         BlasInterface<IntelMKL, FuncType>()(
             &n,
             &n,
@@ -41,12 +45,12 @@ struct MultiplicationFunctor<Dense,T,P,Dense,T,P,Dense,T,P,IntelMKL>
             reinterpret_cast<const int*>(&A.nbColumns_),
             &alpha,
             const_cast<T*>(A.data_),
-            reinterpret_cast<const int*>(&A.nbRows_),
+            &lda,
             const_cast<T*>(B.data_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &ldb,
             &beta,
             C.data_,
-            reinterpret_cast<const int*>(&A.nbRows_)
+            &lda
         );
     }
 };
@@ -73,6 +77,8 @@ struct MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,IntelMKL>
         char matdescra[6] = {'G', 'L', 'N', 'F', 'X', 'X'};
         T alpha = 1.0;
         T beta = 0.0;
+        int ldb = std::max<int>(A.getNbColumns(), 1);
+        int ldc = std::max<int>(A.getNbRows(), 1);
 
         // TODO: Add parameter for index-base
         Matrix<Sparse, T, Parameter<size_t, RowMajor>> rmA(A);
@@ -95,14 +101,14 @@ struct MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,IntelMKL>
             &alpha,
             matdescra,
             const_cast<T*>(rmA.value_.getDataPointer()),
-            &rmA_key[0],
-            &rmA_offset[0],
-            &rmA_offset[1],
+            rmA_key.data(),
+            rmA_offset.data(),
+            rmA_offset.data() + 1,
             const_cast<T*>(B.data_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &ldb,
             &beta,
             C.data_,
-            reinterpret_cast<const int*>(&A.nbRows_)
+            &ldc
         );
     }
 };
-- 
2.43.0


From 0a0331e3c107df7519caa2cba13548d28ec7061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 35/55] fix: sparse product of the MKL mixed up dimensions and
 dropped the result

---
 .../Core/Multiplication_IntelMKL.h            | 59 ++++++++-----------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index 769855f..a63b93f 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -129,11 +129,18 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(), B.getNbColumns());
 
-        char n = 'N';
-        int request = 1;
+        char trans = 'N';
+        int request = 0;
         int sort = 8;
         int info;
 
+        // The column-wise stored arrays of a matrix are the row-wise stored arrays
+        // of the transposed one, therefore C^T = B^T * A^T will be computed.
+        int m = B.getNbColumns();
+        int n = B.getNbRows();
+        int k = A.getNbRows();
+        int nzmax = C.value_.size();
+
         std::vector<int> A_key(A.key_.size());
         std::transform(A.key_.begin(), A.key_.end(), A_key.begin(), [](size_t value){
             return ++value;
@@ -158,44 +165,22 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         std::vector<int> C_offset(C.offset_.size());
 
         BlasInterface<IntelMKL, FuncType>()(
-            &n,
+            &trans,
             &request,
             &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
-            const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
-            &info
-        );
-        assert(info == 0);
-
-        request = 2;
-        BlasInterface<IntelMKL, FuncType>()(
+            &m,
             &n,
-            &request,
-            &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
+            &k,
             const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
+            B_key.data(),
+            B_offset.data(),
+            const_cast<T*>(A.value_.getDataPointer()),
+            A_key.data(),
+            A_offset.data(),
+            C.value_.getDataPointer(),
+            C_key.data(),
+            C_offset.data(),
+            &nzmax,
             &info
         );
         assert(info == 0);
@@ -207,6 +192,8 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         std::transform(C_offset.begin(), C_offset.end(), C.offset_.begin(), [](int value){
             return --value;
         });
+
+        C.shrink(C_offset.back() - 1);
     }
 };
 
-- 
2.43.0


From 323252927bedcdb367c0bb38dcd351ad213602ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 36/55] fix: table of the trackers glued name, count and time
 together

---
 include/BlasBooster/Utilities/Tracker.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index e2373a7..09d1e34 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -82,20 +82,24 @@ enum class TrackerID {
 
         static std::ostream& print(std::ostream& os)
         {
+            auto flags = os.setf(std::ios_base::left, std::ios_base::adjustfield);
+
             os << "\n"
-               << std::setw(20) << "tracker"
+               << std::setw(25) << "tracker"
                << std::setw(10) << "count"
-               << "time\n"
+               << " time\n"
                << std::string(60,'-')
                << std::endl;
 
             for (size_t i = 0; i != static_cast<size_t>(TrackerID::size); ++i) {
                 if (count[i] == 0) continue;
-                os << std::setw(20) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
-                   << std::setw(10) << count[i]
+                os << std::setw(25) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
+                   << std::setw(10) << count[i] << " "
                    << time[i].count() << " ns"
                    << std::endl;
             }
+
+            os.flags(flags);
             return os;
         }
 
-- 
2.43.0


From 399c8983690269b712f89274fc8ca428f5c7d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 37/55] fix: a sparse matrix could not be constructed from a
 dynamic matrix

---
 include/BlasBooster/Core/SparseMatrix.h | 28 +++----------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index eddc8fa..d6d9a5b 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -253,33 +253,11 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     *iterOffsetCur++ = offset;
 }
 
-template <class M>
-struct ConvertToSparseMatrix
-{
-    typedef M result_type;
-
-    ConvertToSparseMatrix(DynamicMatrix const& dynMatrix, double threshold)
-     : dynMatrix_(dynMatrix), threshold_(threshold)
-    {}
-
-    template <class T>
-    result_type operator()(T* = 0) const
-    {
-        return M(*std::static_pointer_cast<T>(dynMatrix_),threshold_);
-    }
-
-    DynamicMatrix dynMatrix_;
-    double threshold_;
-};
-
+// Conversion from DynamicMatrix
 template <class T, class P>
 Matrix<Sparse,T,P>::Matrix(DynamicMatrix const& dynMatrix, double threshold)
-: dimension(), storage()
-{
-    Matrix<Sparse,T,P> matrix = exec_if<TypeList>(TypeChecker(dynMatrix->getTypeIndex()),
-        ConvertToSparseMatrix<self>(dynMatrix,threshold));
-    swap(*this,matrix);
-}
+ : Matrix(Matrix<Dense,double,Parameter<typename P::IndexType>>(dynMatrix), AbsoluteValueRangeChecker<double>(threshold))
+{}
 
 // Construction by multiplication expression template
 template <class T, class P>
-- 
2.43.0


From 70923a6ed8e99af576fb662a9c895aa52fa3688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 38/55] fix: operations of dynamic matrices read beyond their
 table for types which aren't listed and failed during static initialization

---
 include/BlasBooster/Utilities/exec_dyn.h      | 19 +++++++----
 include/BlasBooster/Utilities/exec_dyn_2dim.h | 32 +++++++++++--------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/include/BlasBooster/Utilities/exec_dyn.h b/include/BlasBooster/Utilities/exec_dyn.h
index 63e1d02..a1e7ca6 100644
--- a/include/BlasBooster/Utilities/exec_dyn.h
+++ b/include/BlasBooster/Utilities/exec_dyn.h
@@ -1,5 +1,10 @@
 #pragma once
 
+#include <array>
+
+#include "BlasBooster/Core/CoreException.h"
+#include "BlasBooster/Utilities/TypeList.h"
+
 namespace BlasBooster {
 
 template <class FunctionType, template <class ...> class Executor, class ExecutorExtraTypes, class TypeList>
@@ -8,17 +13,19 @@ struct DynFuncGenerator;
 template <class FunctionType, template <class ...> class Executor, class ...ExecutorExtraArgs, class ...Args>
 struct DynFuncGenerator<FunctionType, Executor, TypeList<ExecutorExtraArgs...>, TypeList<Args...>>
 {
-    static std::array<FunctionType, sizeof...(Args)> dynFunc;
+    /// Created at first use, because static data members of templates are initialized in no particular order
+    static std::array<FunctionType, sizeof...(Args)> const& dynFunc()
+    {
+        static std::array<FunctionType, sizeof...(Args)> const functions = { Executor<ExecutorExtraArgs..., Args>()... };
+        return functions;
+    }
 };
 
-template <class FunctionType, template <class ...> class Executor, class ...ExecutorExtraArgs, class ...Args>
-std::array<FunctionType, sizeof...(Args)>
-    DynFuncGenerator<FunctionType, Executor, TypeList<ExecutorExtraArgs...>, TypeList<Args...>>::dynFunc = { Executor<ExecutorExtraArgs..., Args>()... };
-
 template <class TypeList, template <class ...> class Executor, class ExecutorExtraTypes, class FunctionType>
 inline typename FunctionType::result_type exec_dyn(DynamicMatrix const& ptrA)
 {
-    return DynFuncGenerator<FunctionType, Executor, ExecutorExtraTypes, TypeList>::dynFunc[ptrA->getTypeIndex()](ptrA);
+    if (ptrA->getTypeIndex() >= GetSize<TypeList>::value) BLASBOOSTER_CORE_FAILURE("type not found");
+    return DynFuncGenerator<FunctionType, Executor, ExecutorExtraTypes, TypeList>::dynFunc()[ptrA->getTypeIndex()](ptrA);
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Utilities/exec_dyn_2dim.h b/include/BlasBooster/Utilities/exec_dyn_2dim.h
index 5f4f29f..223bd0b 100644
--- a/include/BlasBooster/Utilities/exec_dyn_2dim.h
+++ b/include/BlasBooster/Utilities/exec_dyn_2dim.h
@@ -1,5 +1,10 @@
 #pragma once
 
+#include <array>
+
+#include "BlasBooster/Core/CoreException.h"
+#include "BlasBooster/Utilities/TypeList.h"
+
 namespace BlasBooster {
 
 template <class FunctionType, template <class ...> class Executor, class ExecutorExtraTypes, class T1, class TypeList>
@@ -8,32 +13,33 @@ struct DynFuncGenerator1;
 template <class FunctionType, template <class ...> class Executor, class ...ExecutorExtraArgs, class T1, class ...Args>
 struct DynFuncGenerator1<FunctionType, Executor, TypeList<ExecutorExtraArgs...>, T1, TypeList<Args...>>
 {
-    static std::array<FunctionType, sizeof...(Args)> dynFunc;
+    static std::array<FunctionType, sizeof...(Args)> dynFunc()
+    {
+        return { Executor<ExecutorExtraArgs..., T1, Args>()... };
+    }
 };
 
-template <class FunctionType, template <class ...> class Executor, class ...ExecutorExtraArgs, class T1, class ...Args>
-std::array<FunctionType, sizeof...(Args)>
-    DynFuncGenerator1<FunctionType, Executor, TypeList<ExecutorExtraArgs...>, T1, TypeList<Args...>>::dynFunc =
-        { Executor<ExecutorExtraArgs..., T1, Args>()... };
-
 template <class FunctionType, template <class ...> class Executor, class ExecutorExtraTypes, class TypeList1, class TypeList2>
 struct DynFuncGenerator2;
 
 template <class FunctionType, template <class ...> class Executor, class ExecutorExtraTypes, class TypeList1, class... Args>
 struct DynFuncGenerator2<FunctionType, Executor, ExecutorExtraTypes, TypeList1, TypeList<Args...>>
 {
-    static std::array<std::array<FunctionType, sizeof...(Args)>, sizeof...(Args)> dynFunc;
+    /// Created at first use, because static data members of templates are initialized in no particular order
+    static std::array<std::array<FunctionType, sizeof...(Args)>, sizeof...(Args)> const& dynFunc()
+    {
+        static std::array<std::array<FunctionType, sizeof...(Args)>, sizeof...(Args)> const functions =
+            { DynFuncGenerator1<FunctionType, Executor, ExecutorExtraTypes, Args, TypeList1>::dynFunc()... };
+        return functions;
+    }
 };
 
-template <class FunctionType, template <class ...> class Executor, class ExecutorExtraTypes, class TypeList1, class ...Args>
-std::array<std::array<FunctionType, sizeof...(Args)>, sizeof...(Args)>
-    DynFuncGenerator2<FunctionType, Executor, ExecutorExtraTypes, TypeList1, TypeList<Args...>>::dynFunc =
-        { DynFuncGenerator1<FunctionType, Executor, ExecutorExtraTypes, Args, TypeList1>::dynFunc... };
-
 template <class TypeList, template <class ...> class Executor, class ExecutorExtraTypes, class FunctionType>
 inline typename FunctionType::result_type exec_dyn_2dim(DynamicMatrix const& ptrA, DynamicMatrix const& ptrB)
 {
-    return DynFuncGenerator2<FunctionType, Executor, ExecutorExtraTypes, TypeList, TypeList>::dynFunc[ptrA->getTypeIndex()][ptrB->getTypeIndex()](ptrA, ptrB);
+    if (ptrA->getTypeIndex() >= GetSize<TypeList>::value || ptrB->getTypeIndex() >= GetSize<TypeList>::value)
+        BLASBOOSTER_CORE_FAILURE("type not found");
+    return DynFuncGenerator2<FunctionType, Executor, ExecutorExtraTypes, TypeList, TypeList>::dynFunc()[ptrA->getTypeIndex()][ptrB->getTypeIndex()](ptrA, ptrB);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 6e1dcd22edd344d44d40485799ac1ff73178a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 39/55] fix: ContinuousNumberFiller wrote wrong indices into
 row-major sparse matrices

---
 include/BlasBooster/Core/MatrixFiller.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFiller.h b/include/BlasBooster/Core/MatrixFiller.h
index 8dd30f0..71362ad 100644
--- a/include/BlasBooster/Core/MatrixFiller.h
+++ b/include/BlasBooster/Core/MatrixFiller.h
@@ -56,10 +56,10 @@ struct ContinuousNumberFiller
         typename P::IndexType offset(0), key;
         typename Matrix<Sparse,T,P>::index_iterator iterKeyCur(matrix.beginKey());
         typename Matrix<Sparse,T,P>::index_iterator iterOffsetCur(matrix.beginOffset()), iterOffsetEnd(matrix.endOffset() - 1);
-        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getNbRows())
+        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getMajorDimension())
         {
             key = 0;
-            while (key != matrix.getNbRows())
+            while (key != matrix.getMajorDimension())
             {
                 *iterKeyCur = key;
                 ++iterKeyCur;
-- 
2.43.0


From f08b48c34af1f325c1071515d9062f1400e70921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 40/55] fix: MatrixGenerator ignored the occupation

---
 src/MatrixFactory/MatrixGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MatrixFactory/MatrixGenerator.cpp b/src/MatrixFactory/MatrixGenerator.cpp
index 0a5992f..65d1d75 100644
--- a/src/MatrixFactory/MatrixGenerator.cpp
+++ b/src/MatrixFactory/MatrixGenerator.cpp
@@ -1,4 +1,5 @@
 #include "BlasBooster/MatrixFactory/MatrixGenerator.h"
+#include <cmath>
 #include <random>
 
 namespace BlasBooster {
@@ -10,11 +11,13 @@ Matrix<Dense,double> MatrixGenerator::operator()() const
     std::default_random_engine e(settings.seed);
     std::uniform_real_distribution<> d1(settings.minValue, settings.maxValue);
     std::uniform_int_distribution<> d2(0, 1);
+    std::bernoulli_distribution occupied(settings.occupation);
 
     for (Matrix<Dense,double>::iterator iterCur(matrix.begin()),
         iterEnd(matrix.end()); iterCur != iterEnd; ++iterCur)
     {
-        *iterCur = (d2(e) ? -1 : 1) * pow(10,-d1(e));
+        if (settings.occupation < 1.0 and !occupied(e)) *iterCur = 0.0;
+        else *iterCur = (d2(e) ? -1 : 1) * pow(10,-d1(e));
     }
 
     return matrix;
-- 
2.43.0


From 84e4081c7ba27902fc45b62d132d8c79064955ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 41/55] fix: MatrixProvider wrote outside of the matrix for
 wide bands and accepted unknown types and names

---
 src/Benchmark/MatrixProvider.cpp | 7 ++++---
 src/Benchmark/MatrixProvider.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 709bb84..15af1f8 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -1,5 +1,6 @@
 #include "MatrixProvider.h"
-#include <iostream>
+#include <algorithm>
+#include <stdexcept>
 
 namespace BlasBooster {
 
@@ -25,7 +26,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 for (auto&& dim : dim_list) {
                     for (auto&& band_width : band_width_list) {
                         Matrix<Dense, double> matrix(dim, dim, AllFiller<double>(0.0));
-                        for (size_t b = 0; b != band_width; ++b) {
+                        for (size_t b = 0; b != std::min(band_width, dim); ++b) {
                             for (size_t i = 0; i != dim-b; ++i) {
                                 matrix(i+b, i) = value;
                                 matrix(i, i+b) = value;
@@ -41,7 +42,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 auto&& filename = type_leaf.second.get_value<std::string>();
                 matrix_set[name_leaf.first].push_back(Matrix<Dense, double>(filename));
             } else {
-                std::runtime_error("Unknown matrix_set type.");
+                throw std::runtime_error("Unknown matrix_set type.");
             }
         }
     }
diff --git a/src/Benchmark/MatrixProvider.h b/src/Benchmark/MatrixProvider.h
index 44f30ae..ed67a13 100644
--- a/src/Benchmark/MatrixProvider.h
+++ b/src/Benchmark/MatrixProvider.h
@@ -24,7 +24,7 @@ public:
 
     bool operator == (MatrixProvider const& other) const { return matrix_set == other.matrix_set; }
 
-    MatrixList get(std::string const& name) const { return matrix_set.find(name)->second; }
+    MatrixList get(std::string const& name) const { return matrix_set.at(name); }
 
 private:
 
-- 
2.43.0


From 8dc98f5417e81000472b63eb67bbdeb4d0cb4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 42/55] fix: unknown actions were ignored

---
 src/Benchmark/ActionProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Benchmark/ActionProvider.cpp b/src/Benchmark/ActionProvider.cpp
index a278dcb..3db6967 100644
--- a/src/Benchmark/ActionProvider.cpp
+++ b/src/Benchmark/ActionProvider.cpp
@@ -101,7 +101,7 @@ ActionProvider::ActionProvider(ptree const& tree)
 //    	if (leaf.first == "blasbooster_sparse_float") {
 //    		action_list.push_back(std::make_shared<Action_blasbooster_sparse_float>(leaf.second));
         } else {
-            std::runtime_error(std::string("Unknown action: ") + leaf.first);
+            throw std::runtime_error(std::string("Unknown action: ") + leaf.first);
         }
     }
 }
-- 
2.43.0


From 228417fdc0ac90a0203bdbc6a99d0d492411752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 43/55] fix: generate_matrix wrote outside of the matrix if it
 isn't quadratic or the band is wide

---
 src/Benchmark/generate_matrix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 69d79e8..6d91111 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -3,6 +3,7 @@
 #include "BlasBooster/Utilities/BlasBoosterException.h"
 #include "BlasBooster/Utilities/Version.h"
 #include "clara.hpp"
+#include <algorithm>
 #include <fstream>
 
 using namespace BlasBooster;
@@ -46,9 +47,9 @@ int main(int argc, char* argv[])
         if (type == "band") {
             matrix = Matrix<Dense, double>{rows, cols, AllFiller<double>{0.0}};
             for (size_t b = 0; b != band_width; ++b) {
-                for (size_t i = 0; i != rows-b; ++i) {
-                    matrix(i+b,i) = value;
-                    matrix(i,i+b) = value;
+                for (size_t i = 0; i < std::min(rows, cols); ++i) {
+                    if (i + b < rows) matrix(i+b,i) = value;
+                    if (i + b < cols) matrix(i,i+b) = value;
                 }
             }
         } else {
-- 
2.43.0


From 757c42408c516ba95a6b19174799d2eeee1f80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 44/55] fix: deviation of matrices did not compile for float,
 compared different orientations in storage order and sparse matrices by
 position

---
 .../Core/StatisticalErrorInformation.h        | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 9dd55f8..14c9927 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -1,13 +1,23 @@
 #pragma once
 
+#include "BlasBooster/Core/AllMatrixTypes.h"
+#include <algorithm>
+#include <cassert>
+#include <cmath>
+
 namespace BlasBooster {
 
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
+    assert(A.getNbRows() == B.getNbRows() and A.getNbColumns() == B.getNbColumns());
+
+    // Types and orientations of A and B can be different
+    Matrix<Dense,double> const denseA(A), denseB(B);
+
     double maximalDeviation(0.0);
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
+    Matrix<Dense,double>::const_iterator iterACur(denseA.begin()), iterAEnd(denseA.end());
+    Matrix<Dense,double>::const_iterator iterBCur(denseB.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
         maximalDeviation = std::max(maximalDeviation, std::abs(*iterACur - *iterBCur));
@@ -18,9 +28,14 @@ double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
+    assert(A.getNbRows() == B.getNbRows() and A.getNbColumns() == B.getNbColumns());
+
+    // Types and orientations of A and B can be different
+    Matrix<Dense,double> const denseA(A), denseB(B);
+
     double meanSquare(0.0);
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
+    Matrix<Dense,double>::const_iterator iterACur(denseA.begin()), iterAEnd(denseA.end());
+    Matrix<Dense,double>::const_iterator iterBCur(denseB.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
         meanSquare += std::pow(*iterACur - *iterBCur, 2);
-- 
2.43.0


From d77b343243ac6a4bba9e8f85ce63cc0bb8f936ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 45/55] fix: Blaze products of most sizes and of empty matrices
 threw std::invalid_argument

---
 .../BlasBooster/Core/Multiplication_Blaze.h   | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Blaze.h b/include/BlasBooster/Core/Multiplication_Blaze.h
index 53585e7..fb5e075 100644
--- a/include/BlasBooster/Core/Multiplication_Blaze.h
+++ b/include/BlasBooster/Core/Multiplication_Blaze.h
@@ -18,9 +18,15 @@ struct MultiplicationFunctor<Dense,double,P,Dense,double,P,Dense,double,P,Blaze>
         [[maybe_unused]] Tracker<TrackerID::Blaze_dgemm> tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
+        // Blaze refuses matrices without elements
+        if (A.getSize() == 0 or B.getSize() == 0) {
+            C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<double>(0.0));
+            return;
+        }
+
         C.resize(A.getNbRows(), B.getNbColumns());
 
-        using MatrixType = blaze::CustomMatrix<double, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        using MatrixType = blaze::CustomMatrix<double, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixType AA(const_cast<double*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixType BB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
@@ -39,9 +45,15 @@ struct MultiplicationFunctor<Dense,float,P,Dense,float,P,Dense,float,P,Blaze>
         [[maybe_unused]] Tracker<TrackerID::Blaze_sgemm> tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
+        // Blaze refuses matrices without elements
+        if (A.getSize() == 0 or B.getSize() == 0) {
+            C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<float>(0.0));
+            return;
+        }
+
         C.resize(A.getNbRows(), B.getNbColumns());
 
-        using MatrixType = blaze::CustomMatrix<float, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        using MatrixType = blaze::CustomMatrix<float, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixType AA(const_cast<float*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixType BB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
@@ -60,10 +72,16 @@ struct MultiplicationFunctor<Dense,float,P,Dense,double,P,Dense,double,P,Blaze>
         [[maybe_unused]] Tracker<TrackerID::Blaze_sdgemm> tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
+        // Blaze refuses matrices without elements
+        if (A.getSize() == 0 or B.getSize() == 0) {
+            C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<double>(0.0));
+            return;
+        }
+
         C.resize(A.getNbRows(), B.getNbColumns());
 
-        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::aligned, blaze::padded, blaze::columnMajor>;
-        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
+        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixTypeFloat AA(const_cast<float*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixTypeDouble BB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
@@ -82,10 +100,16 @@ struct MultiplicationFunctor<Dense,double,P,Dense,float,P,Dense,double,P,Blaze>
         [[maybe_unused]] Tracker<TrackerID::Blaze_dsgemm> tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
+        // Blaze refuses matrices without elements
+        if (A.getSize() == 0 or B.getSize() == 0) {
+            C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<double>(0.0));
+            return;
+        }
+
         C.resize(A.getNbRows(),B.getNbColumns());
 
-        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::aligned, blaze::padded, blaze::columnMajor>;
-        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::aligned, blaze::padded, blaze::columnMajor>;
+        using MatrixTypeFloat = blaze::CustomMatrix<float, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
+        using MatrixTypeDouble = blaze::CustomMatrix<double, blaze::unaligned, blaze::unpadded, blaze::columnMajor>;
 
         MatrixTypeDouble AA(const_cast<double*>(A.getDataPointer()), A.getNbRows(), A.getNbColumns(), A.getNbRows());
         MatrixTypeFloat BB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns(), B.getNbRows());
-- 
2.43.0


From 72716fe62b67715fd3393cfd7d959aa7ebdc8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 46/55] fix: show_pattern wrote outside of the blocks if the
 border is wider than them

---
 src/Benchmark/show_pattern.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark/show_pattern.cpp b/src/Benchmark/show_pattern.cpp
index 296292c..c1f8eaf 100644
--- a/src/Benchmark/show_pattern.cpp
+++ b/src/Benchmark/show_pattern.cpp
@@ -12,6 +12,7 @@
 #include "BrainTwister/JSON.h"
 #include "BrainTwister/Record.h"
 #include "clara.hpp"
+#include <algorithm>
 #include <iostream>
 
 using namespace BlasBooster;
@@ -111,9 +112,11 @@ int main(int argc, char* argv[])
 
                     AllFiller<double>(std::pow(10, -1.0 * (*type_column_cur)))(sub_matrix);
 
-                    for (int i = 0; i != border_width; ++i) {
-                        for (size_t j = 0; j != (*dim_column_cur).first; ++j) sub_matrix(j,i) = 0.0;
-                        for (size_t j = border_width; j != (*dim_column_cur).second; ++j) sub_matrix(i,j) = 0.0;
+                    // The border is on the left and on the top of the block, which may be smaller than the border.
+                    for (size_t i = 0; i != (*dim_column_cur).first; ++i) {
+                        for (size_t j = 0; j != (*dim_column_cur).second; ++j) {
+                            if (static_cast<int>(std::min(i, j)) < border_width) sub_matrix(i,j) = 0.0;
+                        }
                     }
 
                     // TODO: rowOffset is ideally determined one time (all submatrices in a column have the same row size).
-- 
2.43.0


From 72245289cc0e555fe5aa11ef0a27448105aaa4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 47/55] fix: native products of row-major sparse matrices read
 the rows as columns

---
 .../BlasBooster/Core/Multiplication_Native.h  | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index 08d6c3b..0526c04 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -16,6 +16,18 @@ namespace BlasBooster {
 struct Native {};
 struct TheBestPolicy;
 
+/// True if all matrices with these parameters are stored column by column
+template <class... P>
+inline constexpr bool areColumnMajor = (std::is_same<typename P::orientation, ColumnMajor>::value and ...);
+
+/// Column-major copy of a matrix, or the matrix itself if it is column-major
+template <class M, class T, class P>
+decltype(auto) asColumnMajor(Matrix<M,T,P> const& A)
+{
+    if constexpr (areColumnMajor<P>) return (A);
+    else return Matrix<M,T,Parameter<typename P::IndexType>>(A);
+}
+
 /// Matrix multiplication specialized for Dense, Dense.
 template <class T1, class P1,
           class T2, class P2,
@@ -165,6 +177,11 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Sparse,T2,P2> const& B, Matrix<Sparse,T3,P3>& C)
     {
+        if constexpr (not areColumnMajor<P1,P2>) {
+            C = (asColumnMajor(A) * asColumnMajor(B)).template execute<Native>();
+            return;
+        }
+
         [[maybe_unused]] Tracker<TrackerID::Native_sparse> tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
@@ -220,6 +237,11 @@ struct MultiplicationFunctor<Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
+        if constexpr (not areColumnMajor<P1,P2>) {
+            C = (asColumnMajor(A) * asColumnMajor(B)).template execute<Native>();
+            return;
+        }
+
         [[maybe_unused]] Tracker<TrackerID::Native_sparse_dense> tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
@@ -254,6 +276,11 @@ struct MultiplicationFunctor<Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3,Native>
 {
     void operator () (Matrix<Dense,T1,P1> const& A, Matrix<Sparse,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
+        if constexpr (not areColumnMajor<P2>) {
+            C = (A * asColumnMajor(B)).template execute<Native>();
+            return;
+        }
+
         typedef Cursor<const Matrix<Dense,T1,P1>, Direction::Column> ColumnCursorA;
         typedef Cursor<ColumnCursorA, Direction::Row> RowCursorA;
         typedef Cursor<Matrix<Dense,T3,P3>, Direction::Column> ColumnCursorC;
-- 
2.43.0


From b80199958513bca4dbcc2fa79800cca6e629599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 48/55] fix: default-constructed sparse matrices were read
 outside of their (missing) offsets

---
 include/BlasBooster/Core/SparseMatrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index d6d9a5b..83839e0 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -170,8 +170,10 @@ private:
 
 template <class T, class P>
 Matrix<Sparse,T,P>::Matrix()
- : dimension(), storage()
-{}
+ : dimension(), storage(0, this->getMinorDimension() + 1)
+{
+    std::fill(this->beginOffset(), this->endOffset(), 0);
+}
 
 template <class T, class P>
 template <class Filler>
-- 
2.43.0


From 3d4f6629e6f29835bc64394f0e4dbd7fae03000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 49/55] fix: occupation of empty matrices was NaN

---
 include/BlasBooster/Core/MultipleMatrix.h   | 1 +
 include/BlasBooster/Core/OccupationPolicy.h | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index d43fa28..f11b6ae 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -74,6 +74,7 @@ struct MultipleMatrix
     template <class ValueChecker>
     double getOccupation(ValueChecker const& valueChecker) const
     {
+        if (getSize() == 0) return 0.0;
         return static_cast<double>(getNbOfSignificantElements(valueChecker)) / getSize();
     }
 
diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index cd1c14b..728a007 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -24,8 +24,9 @@ public:
     template <class ValueChecker>
     double getOccupation(ValueChecker const& valueChecker) const
     {
-        return static_cast<double>(getNbOfSignificantElements(valueChecker))
-            / static_cast<const Derived*>(this)->getSize();
+        size_t size = static_cast<const Derived*>(this)->getSize();
+        if (size == 0) return 0.0;
+        return static_cast<double>(getNbOfSignificantElements(valueChecker)) / size;
     }
 
     template <class ValueChecker>
-- 
2.43.0


From 73c0be476fdbde6be750ca8c5b25249b904ecfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 50/55] fix: occupation of blocked matrices was relative to the
 number of blocks

---
 include/BlasBooster/Core/OccupationPolicy.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index 728a007..5fb3de7 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -24,7 +24,7 @@ public:
     template <class ValueChecker>
     double getOccupation(ValueChecker const& valueChecker) const
     {
-        size_t size = static_cast<const Derived*>(this)->getSize();
+        size_t size = getNbOfElements(*static_cast<const Derived*>(this));
         if (size == 0) return 0.0;
         return static_cast<double>(getNbOfSignificantElements(valueChecker)) / size;
     }
@@ -41,6 +41,16 @@ public:
         return getOccupation(valueChecker) < value;
     }
 
+private:
+
+    /// The size of a blocked matrix is the number of its blocks
+    template <class U>
+    static size_t getNbOfElements(U const& matrix)
+    {
+        if constexpr (U::parameter::isBlockedMatrix) return matrix.getUnblockedRows() * matrix.getUnblockedColumns();
+        else return matrix.getSize();
+    }
+
 };
 
 } // namespace BlasBooster
-- 
2.43.0


From 14d54ddd24cb9e3b4ce065ae3f5b0a7811d9c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 51/55] fix: root mean square deviation of empty matrices was
 NaN

---
 include/BlasBooster/Core/StatisticalErrorInformation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 14c9927..e825beb 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -40,6 +40,7 @@ double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> co
     {
         meanSquare += std::pow(*iterACur - *iterBCur, 2);
     }
+    if (denseA.getSize() == 0) return 0.0;
     return std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));
 }
 
-- 
2.43.0


From d454d4a5bd8e89ac6750ed6f5357193084936dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 52/55] fix: importing a file into a row-major matrix exchanged
 its elements

---
 include/BlasBooster/Core/MatrixFileIO.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 4faf0f4..ce610c3 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -25,6 +25,14 @@ BRAINTWISTER_RECORD( MatrixFileSettings,\
 template <class T, class P>
 std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
 {
+    // The elements of the file are stored column by column
+    if constexpr (!std::is_same<typename P::orientation, ColumnMajor>::value) {
+        Matrix<Dense,T,Parameter<typename P::IndexType>> columnMajor;
+        is >> columnMajor;
+        matrix = columnMajor;
+        return is;
+    }
+
     boost::property_tree::ptree tree;
     boost::property_tree::read_xml(is, tree);
     MatrixFileSettings settings(tree);
-- 
2.43.0


From c6b1232bbc50e234b6b0338ed0eff6e80a7b7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 53/55] fix: negative offsets of a matrix file were accepted
 and shifted the window

---
 include/BlasBooster/Core/MatrixFileIO.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index ce610c3..cd8bf82 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -39,8 +39,10 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     matrix.resize(settings.nbRows, settings.nbColumns);
 
     // Some dimension checks
-    if (settings.nbRows + settings.rowOffset > settings.rowLeadingDimension) throw BlasBoosterException("");
-    if (settings.nbColumns + settings.columnOffset > settings.columnLeadingDimension) throw BlasBoosterException("");
+    if (settings.rowOffset > settings.rowLeadingDimension or
+        settings.nbRows > settings.rowLeadingDimension - settings.rowOffset) throw BlasBoosterException("");
+    if (settings.columnOffset > settings.columnLeadingDimension or
+        settings.nbColumns > settings.columnLeadingDimension - settings.columnOffset) throw BlasBoosterException("");
 
     std::ifstream is2(settings.filename, std::ifstream::binary);
     if (!is2) throw BlasBoosterException("Can't open file " + settings.filename);
-- 
2.43.0


From be09963244c2748fc0d24d921bb9b4ae2fa430b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:40 +0000
Subject: [PATCH 54/55] fix: dense matrices keep their dimensions if the memory
 of a copy assignment or resize fails

---
 include/BlasBooster/Core/DenseMatrix.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 50cd822..fd5ef05 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -215,8 +215,14 @@ public: // member functions
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (self const& other) = default;
+    /// Copy assignment operator
+    Matrix& operator = (self const& other) {
+        storage::operator=(other); // first, because it may fail
+        dimension::operator=(other);
+        leadingDimension::operator=(other);
+        unblockedDimension::operator=(other);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (self&& rhs) BLASBOOSTER_NOEXCEPT {
@@ -708,8 +714,8 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    static_cast<storage*>(this)->resize(nbRows * nbColumns); // first, because it may fail
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
-    static_cast<storage*>(this)->resize(nbRows * nbColumns);
     filler(*this);
 }
 
@@ -719,10 +725,10 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    static_cast<storage*>(this)->resize(nbRows*nbColumns); // first, because it may fail
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
 }
 
 template <class T, class P>
-- 
2.43.0


From e76da48e6f11a5e2d18b4e54011ddb4f13d76913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:40 +0000
Subject: [PATCH 55/55] fix: sparse matrices stay as they are if the memory of
 a copy assignment or resize fails

---
 include/BlasBooster/Core/SparseMatrix.h  | 16 ++++++++++------
 include/BlasBooster/Core/SparseStorage.h |  9 ++++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 83839e0..0adae70 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -98,8 +98,12 @@ public:
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (Matrix const& other) = default;
+    /// Copy assignment operator
+    Matrix& operator = (Matrix const& other) {
+        Matrix tmp(other);
+        swap(*this, tmp);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (Matrix&& rhs)
@@ -273,10 +277,10 @@ template <class T, class P>
 void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
-    this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
+    dimension newDimension(nbRows, nbColumns);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns,
+        newDimension.getMinorDimension() + 1); // first, because it may fail
+    dimension::operator=(newDimension);
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index d89e78e..e1e10b1 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -113,9 +113,12 @@ public:
     {}
 
     void resize(IndexType nbOfValues, IndexType nbOfOffsets) {
-        value_.resize(nbOfValues);
-        key_.resize(nbOfValues);
-        offset_.resize(nbOfOffsets);
+        self tmp(nbOfValues, nbOfOffsets);
+        if (nnz() != nbOfValues) {
+            swap(value_, tmp.value_);
+            swap(key_, tmp.key_);
+        }
+        if (sizeOffset() != nbOfOffsets) swap(offset_, tmp.offset_);
     }
 
     /// Keep only the first nbOfValues values and keys
-- 
2.43.0

