From 08f8482ed74de8d2d86685820d73aa6101d896e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 01/30] fix: SparseVector lookup compares the index with the
 stored indices, not with their number

---
 sparseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..7a25866 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,7 +188,7 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
+	if length == 0 || i > s.indices[length-1] {
 		return length, length, nil
 	}
 
-- 
2.43.0


From 3ea95dada2dce2c2305878a32c88a78ea597f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 02/30] fix: At and Element of the sparse formats read without
 writing the element back

---
 cscMatrix.go    | 24 ++++++++++++++----------
 csrMatrix.go    | 24 ++++++++++++++----------
 sparseVector.go | 13 ++++++++-----
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..25d7323 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,19 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -412,10 +421,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..8d8e078 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,19 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -402,10 +411,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 7a25866..493f3e9 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,15 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From 4773c6641a099114e7d2393a12ea2356cde037a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 03/30] fix: Element is true for negative values too

---
 cscMatrix.go    | 2 +-
 csrMatrix.go    | 2 +-
 denseMatrix.go  | 2 +-
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 25d7323..825c59a 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -421,5 +421,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 8d8e078..de66788 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -411,5 +411,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/denseMatrix.go b/denseMatrix.go
index 220637f..46f8847 100644
--- a/denseMatrix.go
+++ b/denseMatrix.go
@@ -362,5 +362,5 @@ func (s *DenseMatrixNumber[T]) Element(r, c int) bool {
 }
 
 func (s *DenseMatrixNumber[T]) element(r, c int) bool {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/denseVector.go b/denseVector.go
index d68a835..4812283 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -351,5 +351,5 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.AtVec(r) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 493f3e9..ee39207 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -370,5 +370,5 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.AtVec(r) != Default[T]()
 }
-- 
2.43.0


From bf90f2a458d4d2f2743af96e17dd0123b4abd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 04/30] fix: vectors reject an out of range column in At and
 Element

---
 denseVector.go  | 6 +++++-
 sparseVector.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 4812283..ee0a526 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -130,6 +130,10 @@ func (s *DenseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *DenseVector[T]) At(r, c int) (value T) {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r)
 }
 
@@ -351,5 +355,5 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
-	return s.AtVec(r) != Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index ee39207..5cc9936 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -370,5 +370,5 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
-	return s.AtVec(r) != Default[T]()
+	return s.At(r, c) != Default[T]()
 }
-- 
2.43.0


From 5401505b26e4ec9fcec0aed4638760bef8b247c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 05/30] fix: ReSize shrinks the vector to the requested size

---
 denseVector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index ee0a526..7ec9dcb 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -91,8 +91,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 		arr := make([]T, length)
 		s.values = append(s.values, arr...)
 	} else if size < s.l {
-		length := s.l - size
-		s.values = append([]T(nil), s.values[:length]...)
+		s.values = append([]T(nil), s.values[:size]...)
 	}
 
 	s.l = len(s.values)
-- 
2.43.0


From 2af73009cf4a0bba318709a60e7b3da9176c7edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 06/30] fix: the product of a vector and a matrix has the
 vector's rows and the matrix's columns

---
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 7ec9dcb..49f6134 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -226,7 +226,7 @@ func (s *DenseVectorNumber[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *DenseVectorNumber[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
diff --git a/sparseVector.go b/sparseVector.go
index 5cc9936..517b9d9 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -239,7 +239,7 @@ func (s *SparseVector[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *SparseVector[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
-- 
2.43.0


From 39af10a0c3f37052a211087b6792173a5dd1c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 07/30] fix: Map keeps its position when the function removes
 an element of a sparse matrix

---
 cscMatrix.go    | 4 ++++
 csrMatrix.go    | 4 ++++
 sparseVector.go | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index 825c59a..8d4c1d1 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -416,6 +416,10 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		s.pointerStart--
+		s.pointerEnd--
+		s.last--
+		s.size--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index de66788..ad738de 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -406,6 +406,10 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		s.pointerStart--
+		s.pointerEnd--
+		s.last--
+		s.size--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index 517b9d9..9a5e2ab 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -365,6 +365,8 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From 00c58b215969be887ae5fe84900e6675668b3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 08/30] fix: MutexMatrix locks for Values, and exclusively for
 Clear

---
 mutexMatrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..f1804e6 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -161,13 +161,16 @@ func (s *MutexMatrix[T]) Size() int {
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Values()
 }
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
-- 
2.43.0


From b6e48d30db7fa56ec6e2e41cd7cc057ac7df7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 09/30] fix: MutexMatrix iterators do not touch the matrix
 outside the lock

---
 mutexMatrix.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index f1804e6..6faeb73 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -175,14 +175,36 @@ func (s *MutexMatrix[T]) Clear() {
 	s.matrix.Clear()
 }
 
-// Enumerate iterates through all non-zero elements, order is not guaranteed
+// Enumerate iterates through a snapshot of all non-zero elements, order is not guaranteed
 func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {
-	return s.matrix.Enumerate()
+	s.RLock()
+	defer s.RUnlock()
+
+	return s.matrix.Copy().Enumerate()
 }
 
 // Map replace each element with the result of applying a function to its value
 func (s *MutexMatrix[T]) Map() Map[T] {
-	return s.matrix.Map()
+	return &mutexMatrixMap[T]{matrix: s, iterator: s.Enumerate()}
+}
+
+// mutexMatrixMap updates each element of a snapshot under the lock
+type mutexMatrixMap[T constraints.Number] struct {
+	matrix   *MutexMatrix[T]
+	iterator Enumerate[T]
+}
+
+// HasNext checks the iterator has any more values
+func (s *mutexMatrixMap[T]) HasNext() bool {
+	return s.iterator.HasNext()
+}
+
+// Map move the iterator and uses a higher order function to changes the elements current value
+func (s *mutexMatrixMap[T]) Map(f func(int, int, T) T) {
+	r, c, _ := s.iterator.Next()
+	s.matrix.Update(r, c, func(v T) T {
+		return f(r, c, v)
+	})
 }
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
-- 
2.43.0


From bce448c71386a810952eb525a1c0e5e28159a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 10/30] fix: IsSparseMatrix recognises a registered type for
 every element type

---
 matrixRegistry.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..afdb410 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,24 +8,33 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
 
 var sparseMatrixRegistry = make(map[string]reflect.Type)
 
+// sparseMatrixNames are the registered types without their type arguments
+var sparseMatrixNames = make(map[string]bool)
+
+// genericName is the name of the type without its type arguments
+func genericName(t reflect.Type) string {
+	name, _, _ := strings.Cut(t.Name(), "[")
+	return t.PkgPath() + "." + name
+}
+
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
 	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
 		log.Panicf("Already registered Matrix %q.", matrix.Name())
 	}
 	sparseMatrixRegistry[matrix.Name()] = matrix
-
+	sparseMatrixNames[genericName(matrix)] = true
 }
 
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
-	return found
+	return sparseMatrixNames[genericName(t)]
 }
-- 
2.43.0


From 181c2d284d1beea9ed6b715c19203a05a11f1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 11/30] fix: Subtract subtracts m, and covers the elements that
 only m has

---
 operators.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index aa18ffa..cbefcbc 100644
--- a/operators.go
+++ b/operators.go
@@ -302,6 +302,14 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// the operands are read while the output is written
+	if s == matrix {
+		s = s.Copy()
+	}
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
@@ -309,9 +317,22 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+				matrix.Set(r, c, value-m.At(r, c))
+			}
+		}
+	}
+
+	// elements found only in m
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, value := iterator.Next()
+			if s.At(r, c) == Default[T]() {
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, -value)
+				}
 			}
 		}
 	}
-- 
2.43.0


From dd13beda649a29b4abff00d451d7b9318c4d3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 12/30] fix: Add covers the elements that only one of the
 operands has

---
 operators.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/operators.go b/operators.go
index cbefcbc..eb3e544 100644
--- a/operators.go
+++ b/operators.go
@@ -188,28 +188,41 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	var iterator Enumerate[T]
-	var source Matrix[T]
-	if IsSparseMatrix[T](s) {
-		iterator = s.Enumerate()
-		source = m
-	} else {
-		iterator = m.Enumerate()
-		source = s
+	// the operands are read while the output is written
+	if s == matrix {
+		s = s.Copy()
+	}
+	if m == matrix {
+		m = m.Copy()
 	}
 
-	for iterator.HasNext() {
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
 			r, c, v := iterator.Next()
-			value := source.At(r, c)
+			value := m.At(r, c)
 			if !mask.Element(r, c) {
 				matrix.Set(r, c, value+v)
 			}
 		}
 	}
+
+	// elements found only in m
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, v := iterator.Next()
+			if s.At(r, c) == Default[T]() {
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, v)
+				}
+			}
+		}
+	}
 }
 
 func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-- 
2.43.0


From 55b41a501536e88e9aa097f09ba694b94017eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 13/30] fix: Equal compares every element of a sparse and a
 dense matrix

---
 operators.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index eb3e544..c6d1c5b 100644
--- a/operators.go
+++ b/operators.go
@@ -558,7 +558,8 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 
 	// Check for a sparse matrix as we want to use its Enumerate operation
 	// Because the use of the At operation on a sparse matrix is expensive
-	if isSparseMatrixS {
+	// but a sparse matrix does not enumerate its zeros, so only when both are
+	if isSparseMatrixM {
 		iterator = s.Enumerate()
 		matrix = m
 	} else {
-- 
2.43.0


From 31b2b2d9dbdb44a41927c9485ecfc844c9c71fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 14/30] fix: Apply writes the unmasked elements, in place too,
 without transposing them

---
 operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.go b/operators.go
index c6d1c5b..29d80ef 100644
--- a/operators.go
+++ b/operators.go
@@ -374,7 +374,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
@@ -393,7 +393,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From c2b50dd017db9febf885ca51ed869f469bce7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 15/30] fix: Negative negates its operand, not what the output
 held

---
 operators.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/operators.go b/operators.go
index 29d80ef..801dc55 100644
--- a/operators.go
+++ b/operators.go
@@ -413,6 +413,22 @@ func Negative[T constraints.Number](ctx context.Context, s Matrix[T], mask Mask,
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	if s != matrix {
+		for iterator := s.Enumerate(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				r, c, value := iterator.Next()
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, -value)
+				}
+			}
+		}
+
+		return
+	}
+
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 0adb2c24befeb696f90b6019605f38ed4dfeab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 16/30] fix: Transpose applies the mask to the position it
 writes

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 801dc55..de5ceb4 100644
--- a/operators.go
+++ b/operators.go
@@ -468,7 +468,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From b08c6fefd602d889b99fa9f790948a23e69708a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 17/30] fix: element-wise operations require operands of the
 same shape

---
 operators.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index de5ceb4..765f746 100644
--- a/operators.go
+++ b/operators.go
@@ -148,8 +148,12 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 //
 // eWiseMult
 func ElementWiseMatrixMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseMultiply(ctx, s, m, mask, matrix)
@@ -275,8 +279,12 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 //
 // eWiseMult
 func ElementWiseMatrixAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseAdd(ctx, s, m, mask, matrix)
-- 
2.43.0


From bc78f4384315ab0eb70d5a9ee7a4a6bbc449552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 18/30] fix: element-wise multiplication multiplies, and clears
 what only the output has

---
 operators.go | 55 +++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/operators.go b/operators.go
index 765f746..d101fb7 100644
--- a/operators.go
+++ b/operators.go
@@ -81,9 +81,6 @@ func MatrixVectorMultiply[T constraints.Number](ctx context.Context, s Matrix[T]
 }
 
 func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	var iterator Enumerate[T]
-	var source Matrix[T]
-
 	if mask == nil {
 		mask = NewEmptyMask(matrix.Rows(), matrix.Columns())
 	}
@@ -96,36 +93,34 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	target := func(r, c int, value T) {
-		v := source.At(r, c)
-		if value == v {
-			if !mask.Element(r, c) {
-				matrix.Set(r, c, value)
-			}
+	// when the matrix is the same object of s or m we self update
+	if m == matrix || s == matrix {
+		source := s
+		if s == matrix {
+			source = m
 		}
-	}
 
-	// when the matrix is the same object of s or m we use the setSource func to self update
-	setSource := func(r, c int, value T) {
-		if !mask.Element(r, c) {
-			source.Update(r, c, func(v T) T {
-				if value != v {
-					return Default[T]()
-				}
-				return v
-			})
+		for iterator := matrix.Map(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				iterator.Map(func(r, c int, value T) T {
+					if !mask.Element(r, c) {
+						return value * source.At(r, c)
+					}
+
+					return value
+				})
+			}
 		}
+
+		return
 	}
 
-	if m == matrix {
-		target = setSource
-		iterator = s.Enumerate()
-		source = m
-	} else if s == matrix {
-		target = setSource
-		iterator = m.Enumerate()
-		source = s
-	} else if IsSparseMatrix[T](s) {
+	var iterator Enumerate[T]
+	var source Matrix[T]
+	if IsSparseMatrix[T](s) {
 		iterator = s.Enumerate()
 		source = m
 	} else {
@@ -139,7 +134,9 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 			return
 		default:
 			r, c, value := iterator.Next()
-			target(r, c, value)
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, value*source.At(r, c))
+			}
 		}
 	}
 }
-- 
2.43.0


From dd7692873b4cc95cb84954c14d6d70ab925229ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 19/30] fix: Scalar returns when its context is cancelled

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index d101fb7..70493bd 100644
--- a/operators.go
+++ b/operators.go
@@ -615,7 +615,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From 57379f78c629e520d84bb54e460c85419856d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 20/30] fix: a reduction returns when its context is cancelled

---
 operators.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/operators.go b/operators.go
index 70493bd..6a26087 100644
--- a/operators.go
+++ b/operators.go
@@ -686,6 +686,7 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
+				done <- struct{}{}
 				return
 			default:
 				r, c, value := iterator.Next()
-- 
2.43.0


From aaf62e8fbdebf5b4d2ae8933b170f373121dc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 21/30] fix: a reduction that rejects its mask leaves no
 goroutine behind

---
 operators.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/operators.go b/operators.go
index 6a26087..58b24cf 100644
--- a/operators.go
+++ b/operators.go
@@ -663,13 +663,6 @@ func ReduceMatrixToScalar[T constraints.Number](ctx context.Context, s MatrixLog
 // ReduceMatrixToScalarWithMonoID perform's a reduction on the Matrix
 // monoid used in the element-wise reduction operation
 func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {
-	done := make(chan struct{})
-	slice := make(chan T)
-	defer close(slice)
-	defer close(done)
-
-	out := monoID.Reduce(done, slice)
-
 	if mask == nil {
 		mask = NewEmptyMask(s.Rows(), s.Columns())
 	}
@@ -682,6 +675,13 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), s.Columns())
 	}
 
+	done := make(chan struct{})
+	slice := make(chan T)
+	defer close(slice)
+	defer close(done)
+
+	out := monoID.Reduce(done, slice)
+
 	go func() {
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
-- 
2.43.0


From 18dffb365eb87337b916bd4cf533e575334ed205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 22/30] fix: Strassen multiplies what it can not divide in 4
 the standard way

---
 math/strassen/strassen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..6fec851 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,8 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	// only square matrices of an even size divide in 4 sub-matrices of the same size
+	if n <= crossover || n == 0 || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From f8b16d0d3a474493542d316410b57db3790565c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 23/30] fix: a derived context keeps the Mode

---
 context.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index ce7f9c3..446ef73 100644
--- a/context.go
+++ b/context.go
@@ -35,11 +35,22 @@ func (s *graphContect) Mode() Mode {
 	return s.mode
 }
 
+// modeKey is the key of the Mode in a context derived from a graphContect
+type modeKey struct{}
+
+// Value is the Mode for the modeKey, for any other key the value of the parent
+func (s *graphContect) Value(key any) any {
+	if key == (modeKey{}) {
+		return s.mode
+	}
+	return s.Context.Value(key)
+}
+
 // BlockingMode returns the Mode from the context
 func BlockingMode(ctx context.Context) (Mode, bool) {
-	graph, ok := ctx.(*graphContect)
+	mode, ok := ctx.Value(modeKey{}).(Mode)
 	if ok {
-		return graph.Mode(), ok
+		return mode, ok
 	}
 	return Blocking, false
 }
-- 
2.43.0


From cf366794134e67bfdbe1a3089c135d13e9b5bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 24/30] fix: Compare takes the position of the elements of a
 sparse matrix into account

---
 operators.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 58b24cf..9197df1 100644
--- a/operators.go
+++ b/operators.go
@@ -528,15 +528,16 @@ func Greater(ctx context.Context, s, m MatrixLogical[rune]) bool {
 func String(ctx context.Context, s MatrixLogical[rune]) string {
 	var b strings.Builder
 	b.Grow(s.Size())
-	enumator := s.Enumerate()
 
-	for enumator.HasNext() {
-		select {
-		case <-ctx.Done():
-			return b.String()
-		default:
-			_, _, r := enumator.Next()
-			b.WriteRune(r)
+	// a sparse matrix does not enumerate its zeros, which take their place in the string
+	for r := 0; r < s.Rows(); r++ {
+		for c := 0; c < s.Columns(); c++ {
+			select {
+			case <-ctx.Done():
+				return b.String()
+			default:
+				b.WriteRune(s.At(r, c))
+			}
 		}
 	}
 
-- 
2.43.0


From 8bbf296d9b353f6943101904ca6026a4f625b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 25/30] fix: sorting a sparse matrix moves its zeros too

---
 sort/bubble.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/sort/bubble.go b/sort/bubble.go
index 845e9c8..d66273e 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -14,16 +14,9 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(j, c, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(i, c, v)
+				for c := 0; c < result.Columns(); c++ {
+					result.Set(j, c, vi.AtVec(c))
+					result.Set(i, c, vj.AtVec(c))
 				}
 			}
 		}
@@ -40,16 +33,9 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, j, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, i, v)
+				for c := 0; c < result.Rows(); c++ {
+					result.Set(c, j, vi.AtVec(c))
+					result.Set(c, i, vj.AtVec(c))
 				}
 			}
 		}
-- 
2.43.0


From 69113b99cfaace381a3d6c0c9704533f358dc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 26/30] fix: element-wise addition into its second operand
 keeps that operand's elements

With the output the same object as m, a position both operands have got s's
element, with any other output it got m's.
---
 operators.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 9197df1..26d2939 100644
--- a/operators.go
+++ b/operators.go
@@ -246,7 +246,8 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 				return
 			default:
 				r, c, value := iterator.Next()
-				if value != Default[T]() {
+				// an output that is m already holds the elements of m, which take precedence
+				if value != Default[T]() && (m != matrix || m.At(r, c) == Default[T]()) {
 					if !mask.Element(r, c) {
 						matrix.Set(r, c, value)
 					}
-- 
2.43.0


From db6a7fdc9a25fbc8da8658880390e3cfadb7c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 27/30] fix: a cancelled Strassen product stops instead of
 going on with its loops

---
 math/strassen/strassen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index 6fec851..4dda3ec 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -50,7 +50,7 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 		for c := 0; c < size; c++ {
 			select {
 			case <-ctx.Done():
-				break
+				return graphblas.NewDenseMatrixN[T](n, n)
 			default:
 				a11.Set(r, c, a.At(r, c))           // top left
 				a12.Set(r, c, a.At(r, c+size))      // top right
@@ -94,7 +94,7 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 		for c := 0; c < c11.Columns(); c++ {
 			select {
 			case <-ctx.Done():
-				break
+				return matrix
 			default:
 				matrix.Set(r, c, c11.At(r, c))
 				matrix.Set(r, c+shift, c12.At(r, c))
-- 
2.43.0


From 1989dfa92be600bdc4a9fd8a0d2179041dfdc7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 28/30] fix: a reduction to a vector looks whether it is
 cancelled

---
 operators.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 26d2939..153c6eb 100644
--- a/operators.go
+++ b/operators.go
@@ -638,9 +638,14 @@ func ReduceMatrixToVectorWithMonoID[T constraints.Number](ctx context.Context, s
 
 	vector := NewDenseVectorN[T](s.Columns())
 	for c := 0; c < s.Columns(); c++ {
-		v := s.ColumnsAt(c)
-		scaler := ReduceVectorToScalarWithMonoID(ctx, v, monoID, mask)
-		vector.SetVec(c, scaler)
+		select {
+		case <-ctx.Done():
+			return vector
+		default:
+			v := s.ColumnsAt(c)
+			scaler := ReduceVectorToScalarWithMonoID(ctx, v, monoID, mask)
+			vector.SetVec(c, scaler)
+		}
 	}
 
 	return vector
-- 
2.43.0


From 7c7a5f1995ba909bd18bbe533b4357f41f877b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 29/30] fix: a breadth-first search looks whether it is
 cancelled

---
 breadthfirst/breadthFirst.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/breadthfirst/breadthFirst.go b/breadthfirst/breadthFirst.go
index b4d717d..ddf6ade 100644
--- a/breadthfirst/breadthFirst.go
+++ b/breadthfirst/breadthFirst.go
@@ -29,6 +29,12 @@ func Search[T constraints.Number](ctx context.Context, a graphblas.Matrix[T], s
 
 	// when some successor found
 	for d < n {
+		select {
+		case <-ctx.Done():
+			return result
+		default:
+		}
+
 		d++
 
 		graphblas.MatrixVectorMultiply[T](ctx, a, frontier, visited, result)
-- 
2.43.0


From b29021151951a7ce49d9a26091c4d8e65dce92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 30/30] fix: a sort looks whether it is cancelled

---
 sort/bubble.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sort/bubble.go b/sort/bubble.go
index d66273e..36baa9f 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -11,6 +11,12 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 	result := a.CopyLogical()
 	for j := 0; j < size-1; j++ {
 		for i := j + 1; i < size; i++ {
+			select {
+			case <-ctx.Done():
+				return result
+			default:
+			}
+
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
@@ -30,6 +36,12 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 	result := a.CopyLogical()
 	for j := 0; j < size-1; j++ {
 		for i := j + 1; i < size; i++ {
+			select {
+			case <-ctx.Done():
+				return result
+			default:
+			}
+
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-- 
2.43.0

