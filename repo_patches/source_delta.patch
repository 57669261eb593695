From 2238baf0983c75493a98d55cddbd5483a27f85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 01/86] fix: 0**n and 1**n return an ordinary small integer

The result was left as a big integer, so operators defined only on
small integers, such as !, rejected it.
---
 value/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/binary.go b/value/binary.go
index e0f578d..e6c8f3e 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -450,7 +450,7 @@ func init() {
 					}
 					x := u.(BigInt).Int
 					if x.Cmp(bigIntOne.Int) == 0 || x.Sign() == 0 {
-						return u
+						return u.shrink()
 					}
 					return binaryBigIntOp(u, bigIntExpOp(c), v)
 				},
-- 
2.43.0


From f88aa583c80ceef91a62e7b63c0d3c81cc21ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 02/86] fix: max of a small and a big integer returns an
 ordinary small integer

As in min, the result must be shrunk: (3 max -1e40) was a big integer
that operators defined only on small integers rejected.
---
 value/binary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index e6c8f3e..bc8c429 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1260,9 +1260,9 @@ func init() {
 				bigIntType: func(c Context, u, v Value) Value {
 					i, j := u.(BigInt), v.(BigInt)
 					if i.Cmp(j.Int) > 0 {
-						return u
+						return i.shrink()
 					}
-					return v
+					return j.shrink()
 				},
 				bigRatType: func(c Context, u, v Value) Value {
 					i, j := u.(BigRat), v.(BigRat)
-- 
2.43.0


From 0681de2720c67e35a55888d9a3bcff4c9d80e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:24 +0000
Subject: [PATCH 03/86] fix: several omitted indexes give the result dimensions
 in order

---
 value/index.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value/index.go b/value/index.go
index 718d617..f058eb6 100644
--- a/value/index.go
+++ b/value/index.go
@@ -118,13 +118,14 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 		Errorf("too many dimensions in %s indexing shape %v", top.ProgString(), NewIntVector(ix.shape...))
 	}
 	// Replace nil index entries, created above, with iota(dimension).
-	j := 0
+	// outShapeToUpdate was built walking the indexes right to left.
+	j := len(outShapeToUpdate)
 	for i := range ix.indexes {
 		if missing[i] {
 			x := newIota(int(origin), ix.shape[i])
 			ix.indexes[i] = x
+			j--
 			ix.outShape[outShapeToUpdate[j]] = x.Len()
-			j++
 		}
 	}
 	ix.outShape = append(ix.outShape, ix.shape[len(index):]...)
-- 
2.43.0


From d51e18fc551e7cc07f3e630fa3b3957e795f15f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:31 +0000
Subject: [PATCH 04/86] fix: indexing or index-assigning a matrix with an empty
 axis no longer divides by zero

---
 value/index.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/value/index.go b/value/index.go
index f058eb6..06dd51d 100644
--- a/value/index.go
+++ b/value/index.go
@@ -224,7 +224,10 @@ func Index(context Context, top, left Expr, index []Expr) Value {
 
 	data := newVectorEditor(ix.outSize, nil)
 	copySize := int(size(ix.shape[ix.indexDim:]))
-	n := data.Len() / copySize
+	n := 0
+	if copySize > 0 {
+		n = data.Len() / copySize
+	}
 
 	if ix.indexVector != nil {
 		for i, v := range ix.indexVector.All() {
@@ -331,6 +334,10 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 		return
 	}
 
+	if ix.outSize == 0 {
+		// Nothing to assign.
+		return
+	}
 	copySize := int(size(ix.shape[ix.indexDim:]))
 	n := ix.outSize / copySize
 	pfor(true, copySize, n, func(lo, hi int) {
-- 
2.43.0


From 859d5d2a59d76bf281422597fbc366ea1e027767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:29 +0000
Subject: [PATCH 05/86] fix: the value of an assignment or print is an ordinary
 value when used in an expression

---
 value/eval.go  | 20 ++++++++++----------
 value/expr.go  |  4 ++--
 value/index.go |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index ee1fbc8..ce98bc0 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -274,7 +274,7 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 				for k := n - 2; k >= 0; k-- {
 					acc = c.EvalBinary(c.EvalBinary(u.data.At(i+k), right, v.data.At(j+k*vstride)), left, acc)
 				}
-				data.Set(x, acc)
+				data.Set(x, acc.Inner())
 			}
 		})
 		rank := len(u.shape) + len(v.shape) - 2
@@ -299,7 +299,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		data := newVectorEditor(u.Len()*v.Len(), nil)
 		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
-				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())))
+				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())).Inner())
 			}
 		})
 		return NewMatrix([]int{u.Len(), v.Len()}, data.Publish())
@@ -310,7 +310,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		data := newVectorEditor(udata.Len()*vdata.Len(), nil)
 		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
-				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
+				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())).Inner())
 			}
 		})
 		return NewMatrix(append(u.Shape(), v.Shape()...), data.Publish())
@@ -355,7 +355,7 @@ func Reduce(c Context, op string, v Value) Value {
 					acc = c.EvalBinary(v.data.At(pos), op, acc)
 					pos--
 				}
-				data.Set(i, acc)
+				data.Set(i, acc.Inner())
 			}
 		})
 		if len(shape) == 1 {
@@ -396,7 +396,7 @@ func ReduceFirst(c Context, op string, v Value) Value {
 			for j := pos - stride; j >= 0; j -= stride {
 				acc = c.EvalBinary(m.data.At(j), op, acc)
 			}
-			data.Set(i, acc)
+			data.Set(i, acc.Inner())
 		}
 	})
 	if len(shape) == 1 { // TODO: Matrix.shrink()?
@@ -426,7 +426,7 @@ func Scan(c Context, op string, v Value) Value {
 			}
 		} else {
 			for i := 1; i < v.Len(); i++ {
-				values.Set(i, Reduce(c, op, NewVectorSeq(v.Slice(0, i+1))))
+				values.Set(i, Reduce(c, op, NewVectorSeq(v.Slice(0, i+1))).Inner())
 			}
 		}
 		return values.Publish()
@@ -452,7 +452,7 @@ func Scan(c Context, op string, v Value) Value {
 					}
 				} else {
 					for j := 1; j < stride; j++ {
-						data.Set(index+j, Reduce(c, op, NewVectorSeq(v.data.Slice(index, index+j+1))))
+						data.Set(index+j, Reduce(c, op, NewVectorSeq(v.data.Slice(index, index+j+1))).Inner())
 					}
 				}
 			}
@@ -610,7 +610,7 @@ func BinaryEach(c Context, lv Value, op string, rv Value) Value {
 
 	for x := range lhs {
 		for y := range rhs {
-			data.Append(c.EvalBinary(x, innerOp, y))
+			data.Append(c.EvalBinary(x, innerOp, y).Inner())
 		}
 	}
 
@@ -636,7 +636,7 @@ func Each(c Context, op string, v Value) Value {
 
 	data := newVectorEditor(0, nil)
 	for x := range eachValue(v, d) {
-		data.Append(c.EvalUnary(op[:len(op)-d], x))
+		data.Append(c.EvalUnary(op[:len(op)-d], x).Inner())
 	}
 
 	if d == 1 {
@@ -1019,7 +1019,7 @@ func EvalFunctionBody(context Context, fnName string, body []Expr) Value {
 	for _, e := range body {
 		if d, ok := e.(Decomposable); ok && d.Operator() == ":" {
 			left, right := d.Operands()
-			if isTrue(fnName, left.Eval(context)) {
+			if isTrue(fnName, left.Eval(context).Inner()) {
 				return right.Eval(context)
 			}
 			continue
diff --git a/value/expr.go b/value/expr.go
index 153436c..88a402b 100644
--- a/value/expr.go
+++ b/value/expr.go
@@ -55,7 +55,7 @@ func (b *BinaryExpr) Eval(context Context) Value {
 		return assign(context, b)
 	}
 	rhs := b.Right.Eval(context).Inner()
-	lhs := b.Left.Eval(context)
+	lhs := b.Left.Eval(context).Inner()
 	return context.EvalBinary(lhs, b.Op, rhs)
 }
 
@@ -87,7 +87,7 @@ func (e VectorExpr) Eval(context Context) Value {
 	//	x=1000; x + x=2
 	// (yielding 4) work.
 	for i := len(e) - 1; i >= 0; i-- {
-		v.Set(i, e[i].Eval(context))
+		v.Set(i, e[i].Eval(context).Inner())
 	}
 	return v.Publish()
 }
diff --git a/value/index.go b/value/index.go
index 06dd51d..4d2f58b 100644
--- a/value/index.go
+++ b/value/index.go
@@ -89,7 +89,7 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 		}
 		ix.lhs = lvar.value
 	} else {
-		ix.lhs = left.Eval(context)
+		ix.lhs = left.Eval(context).Inner()
 	}
 	switch lhs := ix.lhs.(type) {
 	default:
-- 
2.43.0


From 3afdd7e3efc33063c353add102f7b856bf040acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:57 +0000
Subject: [PATCH 06/86] fix: outer product no longer overwrites the shape of
 another matrix

---
 value/eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/eval.go b/value/eval.go
index ce98bc0..3296046 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -9,6 +9,7 @@ import (
 	"iter"
 	"math/big"
 	"runtime"
+	"slices"
 	"strings"
 )
 
@@ -313,7 +314,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())).Inner())
 			}
 		})
-		return NewMatrix(append(u.Shape(), v.Shape()...), data.Publish())
+		return NewMatrix(slices.Concat(u.Shape(), v.Shape()), data.Publish())
 	}
 	Errorf("can't do outer product on %s", whichType(u))
 	panic("not reached")
-- 
2.43.0


From 01684fbf01b37d89e6ae0143846c328639638f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:05 +0000
Subject: [PATCH 07/86] fix: inner product of matrices with an empty inner axis
 is an error, not a division by zero

---
 value/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index 3296046..31c5b35 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -265,6 +265,9 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 			Errorf("inner product: mismatched shapes %s and %s", NewIntVector(u.shape...), NewIntVector(v.shape...))
 		}
 		n := v.shape[0]
+		if n == 0 {
+			Errorf("empty inner product")
+		}
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
 		pfor(safeBinary(left) && safeBinary(right), 1, data.Len(), func(lo, hi int) {
-- 
2.43.0


From c234f93cef007d5704ea560ce99c54e4a4d2f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:58 +0000
Subject: [PATCH 08/86] fix: div and mod of negative rationals and floats no
 longer change their operands

---
 value/eval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 31c5b35..fbb115a 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -961,12 +961,12 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		y := b.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		if x.Sign() < 0 {
-			x = x.Set(x) // Copy x.
+			x = new(big.Rat).Set(x) // Copy x.
 			x.Neg(x)
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Set(y) // Copy y.
+			y = new(big.Rat).Set(y) // Copy y.
 			y.Neg(y)
 			negY = true
 		}
@@ -988,12 +988,12 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		y := b.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		if x.Sign() < 0 {
-			x = x.Copy(x)
+			x = new(big.Float).Copy(x)
 			x.Neg(x)
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Copy(y)
+			y = new(big.Float).Copy(y)
 			y.Neg(y)
 			negY = true
 		}
-- 
2.43.0


From b0e53cbd463d731bf5821a94333e208d375b086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 09/86] fix: div and mod of floats use the set precision

---
 value/eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index fbb115a..4650297 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -997,10 +997,10 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 			y.Neg(y)
 			negY = true
 		}
-		quo := big.NewFloat(0).Quo(x, y)
+		quo := new(big.Float).Quo(x, y) // Precision is that of the operands.
 		iquo, _ := quo.Int(nil)
 		// quo is the division, iquo is its integer truncation. Remainder is (quo-iquo)*y.
-		rem := quo.Sub(quo, big.NewFloat(0).SetInt(iquo))
+		rem := quo.Sub(quo, new(big.Float).SetInt(iquo))
 		rem.Mul(rem, y)
 		if negX && rem.Sign() != 0 {
 			rem.Sub(y, rem)
-- 
2.43.0


From 1f7d072852e3f11243892a78f86b2bea36ddaedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 10/86] fix: operators no longer divide by zero on matrices
 with an empty axis

---
 value/binary.go | 21 ++++++++++++++-------
 value/matrix.go | 16 ++++++++++------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index bc8c429..83b6783 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -994,6 +994,10 @@ func init() {
 						Errorf("decode of length %d and shape %s", A.Len(), NewIntVector(B.shape...))
 					}
 					shape := B.shape[1:]
+					if A.Len() == 0 || B.shape[0] == 0 {
+						// As for vectors, with nothing to decode the result is zero.
+						return reshape(NewIntVector(shape...), NewVector(zero))
+					}
 					elems := newVectorEditor(B.data.Len()/B.shape[0], nil)
 					get := func(v *Vector, i int) Value {
 						if v.Len() == 1 {
@@ -1178,14 +1182,14 @@ func init() {
 					if len(shape) == 0 {
 						shape = []int{1}
 					}
-					n := A.data.Len() / A.shape[0] // elements in each comparison
-					indices := newVectorEditor(B.data.Len()/n, nil)
-					pfor(true, n, B.data.Len()/n, func(lo, hi int) {
+					n := A.ElemSize() // elements in each comparison
+					indices := newVectorEditor(size(shape), nil)
+					pfor(true, n, indices.Len(), func(lo, hi int) {
 						for i := lo; i < hi; i++ {
 							indices.Set(i, Int(origin-1))
-							for j := 0; j < A.data.Len(); j += n {
-								if allEqual(c, A.data, j, B.data, i*n, n) {
-									indices.Set(i, Int(j/n+origin))
+							for j := range A.shape[0] {
+								if allEqual(c, A.data, j*n, B.data, i*n, n) {
+									indices.Set(i, Int(j+origin))
 									break
 								}
 							}
@@ -1520,7 +1524,10 @@ func init() {
 					result := m.data.sel(count.data, m.shape[len(m.shape)-1])
 					newShape := make([]int, len(m.shape))
 					copy(newShape, m.shape)
-					newShape[len(m.shape)-1] = result.Len() / size(m.shape[:len(m.shape)-1])
+					newShape[len(m.shape)-1] = 0
+					if nrows := size(m.shape[:len(m.shape)-1]); nrows > 0 {
+						newShape[len(m.shape)-1] = result.Len() / nrows
+					}
 					return NewMatrix(newShape, result)
 				},
 			},
diff --git a/value/matrix.go b/value/matrix.go
index 63fc2e6..ece7da1 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -454,6 +454,9 @@ func (m *Matrix) rotate(n int) Value {
 	if m.Rank() == 0 {
 		return &Matrix{}
 	}
+	if m.data.Len() == 0 {
+		return m
+	}
 	elems := newVectorEditor(m.data.Len(), nil)
 	dim := m.shape[m.Rank()-1]
 	n %= dim
@@ -475,7 +478,7 @@ func (m *Matrix) vrotate(n int) Value {
 	if m.Rank() == 0 {
 		return &Matrix{}
 	}
-	if m.Rank() == 1 {
+	if m.Rank() == 1 || m.data.Len() == 0 {
 		return m
 	}
 
@@ -508,6 +511,9 @@ func (m *Matrix) transpose(c Context) *Matrix {
 		data := newVectorEditor(m.data.Len(), nil)
 		xdim, ydim := m.shape[0], m.shape[1] // For new matrix.
 		pfor(true, 1, data.Len(), func(lo, hi int) {
+			if lo == hi {
+				return
+			}
 			nx := lo / ydim
 			ny := lo % ydim
 			for _, v := range m.data.Slice(lo, hi) {
@@ -658,16 +664,14 @@ func (x *Matrix) catenate(y *Matrix) *Matrix {
 		setShape(x, 1)
 		data.Resize(x.data.Len() + y.data.Len())
 		xsize := x.shape[len(x.shape)-1]
-		ysize := y.Size() / nrows
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(xsize, xsize, 1, 1)
 
 	case x.Rank()+1 == y.Rank() && sameShape(x.shape, y.shape[:len(y.shape)-1]):
 		// elem, list
 		setShape(y, 1)
 		data.Resize(y.data.Len() + x.data.Len())
-		xsize := x.Size() / nrows
 		ysize := y.shape[len(y.shape)-1]
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(1, 1, ysize, ysize)
 
 	case x.Rank() == 1 && x.shape[0] == 1 && y.Rank() > 1:
 		// scalar extension, list
@@ -1040,7 +1044,7 @@ func (m *Matrix) grade(c Context) *Vector {
 		x[i] = i
 	}
 	v := m.data
-	stride := v.Len() / m.shape[0]
+	stride := m.ElemSize()
 	sort.Slice(x, func(i, j int) bool {
 		i = x[i] * stride
 		j = x[j] * stride
-- 
2.43.0


From f0942073bd05639f59ba68df5fa028d8cb9dcbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:10 +0000
Subject: [PATCH 11/86] fix: up and down of a matrix keep equal rows in order

---
 value/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/matrix.go b/value/matrix.go
index ece7da1..cea5733 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1045,7 +1045,7 @@ func (m *Matrix) grade(c Context) *Vector {
 	}
 	v := m.data
 	stride := m.ElemSize()
-	sort.Slice(x, func(i, j int) bool {
+	sort.SliceStable(x, func(i, j int) bool {
 		i = x[i] * stride
 		j = x[j] * stride
 		for k := 0; k < stride; k++ {
-- 
2.43.0


From 4b68680dc887fe0556330d263aae3dbe78e2855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:18 +0000
Subject: [PATCH 12/86] fix: part of a matrix with one row or with a score
 starting with zero

---
 value/vector.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/value/vector.go b/value/vector.go
index d1c1562..42925da 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -520,11 +520,11 @@ func (v *Vector) doPartition(score *Vector) (*Vector, int) {
 	for i, sc, prev := 0, 0, 0; i < v.Len(); i, prev = i+1, sc {
 		j := i % score.Len()
 		sc = score.uintAt(j, "part: score")
+		if i > 0 && (sc > prev || j == 0) && accum.Len() > 0 { // Add current subvector, start new one.
+			result.Append(accum.Publish())
+			accum = newVectorEditor(0, nil)
+		}
 		if sc != 0 { // Ignore elements with zero score.
-			if i > 0 && (sc > prev || j == 0) && accum.Len() > 0 { // Add current subvector, start new one.
-				result.Append(accum.Publish())
-				accum.Resize(0)
-			}
 			accum.Append(v.At(i))
 		}
 		if dim < 0 && i > 0 && j == 0 { // Score rolled over for first time; set dim.
@@ -534,6 +534,9 @@ func (v *Vector) doPartition(score *Vector) (*Vector, int) {
 	if accum.Len() > 0 {
 		result.Append(accum.Publish())
 	}
+	if dim < 0 { // Score never rolled over.
+		dim = result.Len()
+	}
 	return result.Publish(), dim
 }
 
-- 
2.43.0


From 526b84db740f64df94fa22ae96a9181f14e519b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:26 +0000
Subject: [PATCH 13/86] fix: mix keeps all elements when shapes of different
 rank or size are mixed

---
 value/matrix.go | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index cea5733..50fa1b9 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -979,26 +979,21 @@ func (m *Matrix) mix(c Context) Value {
 	if m.data.allScalars() {
 		return m
 	}
-	shape := []int{0}
+	// The result's inner shape is the maximum of the elements' shapes,
+	// aligned at the last axis and padded with leading ones.
+	rank := 1
 	for _, e := range m.data.All() {
-		switch e := e.(type) {
-		default:
-			if shape[len(shape)-1] == 0 {
-				shape[len(shape)-1] = 1
-			}
-		case *Vector:
-			if shape[len(shape)-1] < e.Len() {
-				shape[len(shape)-1] = e.Len()
-			}
-		case *Matrix:
-			for len(e.shape) > len(shape) {
-				shape = append(shape, 0)
-			}
-			for i, s := range e.shape {
-				if shape[i] < s {
-					shape[i] = s
-				}
+		rank = max(rank, e.Rank())
+	}
+	shape := make([]int, rank)
+	for _, e := range m.data.All() {
+		eshape := dataShape(e)
+		for i := range shape {
+			dim := 1
+			if j := i - (rank - len(eshape)); j >= 0 {
+				dim = eshape[j]
 			}
+			shape[i] = max(shape[i], dim)
 		}
 	}
 	data := newVectorEditor(0, nil)
@@ -1017,15 +1012,9 @@ func (m *Matrix) mix(c Context) Value {
 			nm = NewMatrix(takeShape, e).take(c, vshape)
 		case *Matrix:
 			offset := vshape.Len() - len(e.shape)
-			same := offset == 0
-			for i := range e.shape {
-				if e.shape[i] != takeShape[offset+i] {
-					same = false
-				}
-				takeShape[offset+i] = e.shape[i]
-			}
+			copy(takeShape[offset:], e.shape)
 			nm = e
-			if !same {
+			if !sameShape(e.shape, shape) {
 				nm = NewMatrix(takeShape, e.data).take(c, vshape)
 			}
 		}
@@ -1033,7 +1022,7 @@ func (m *Matrix) mix(c Context) Value {
 			data.Append(elem)
 		}
 	}
-	return NewMatrix(append(m.shape, shape...), data.Publish())
+	return NewMatrix(slices.Concat(m.shape, shape), data.Publish())
 }
 
 // grade returns as a Vector the indexes that sort the rows of m
-- 
2.43.0


From 4a7443800b348a51cc033ad726da25788bd6d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 14/86] fix: take with several huge counts reports the size
 error instead of overflowing

---
 value/matrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index 50fa1b9..aa6b6f7 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -851,12 +851,12 @@ func (m *Matrix) take(c Context, v *Vector) *Matrix {
 		}
 		shape[i] = y
 		count *= int64(y)
+		if count > maxInt { // Do this before allocating!
+			Errorf("take: result matrix too large")
+		}
 		mBounds[i] = mb
 		origin[i] = o
 	}
-	if count > maxInt { // Do this before allocating!
-		Errorf("take: result matrix too large")
-	}
 
 	// TODO Is there a faster way?
 	fill := fillValue(m.data)
-- 
2.43.0


From a109cfb1222fa5715440837b2154cf483f8c290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:58 +0000
Subject: [PATCH 15/86] fix: inverse of an invertible matrix with a zero on the
 diagonal

---
 value/matrix.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/value/matrix.go b/value/matrix.go
index aa6b6f7..b25aaf0 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1080,7 +1080,7 @@ func (m *Matrix) inverse(c Context) Value {
 		return NewMatrix(m.shape, m.data.inverse(c).(*Vector))
 	case 2:
 		// OK
-	case 3:
+	default:
 		Errorf("cannot compute inverse of matrix with dimension > 2")
 	}
 	dim := m.shape[0]
@@ -1110,6 +1110,13 @@ func (m *Matrix) inverse(c Context) Value {
 
 	// Convert left half to the identity matrix using whole-row operations.
 	for x := 0; x < dim; x++ {
+		// Bring a row with a non-zero element in this column to the diagonal.
+		for y := x; y < dim; y++ {
+			if !isZero(t[y][x]) {
+				t[x], t[y] = t[y], t[x]
+				break
+			}
+		}
 		for y := 0; y < dim; y++ {
 			thisRow := t[y]
 			val := thisRow[x]
-- 
2.43.0


From bbe94361212b678bebfea31a9396533ba3ee2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:06 +0000
Subject: [PATCH 16/86] fix: encode with an empty left operand no longer
 crashes

---
 value/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/binary.go b/value/binary.go
index 83b6783..eb3618b 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1047,7 +1047,7 @@ func init() {
 					// of how modulo arithmetic works.
 					const op = "encode"
 					A, B := u.(*Vector), v.(*Vector)
-					if A.AllChars() {
+					if A.Len() > 0 && A.AllChars() {
 						// Special case for times.
 						return encodeTime(c, A, B)
 					}
-- 
2.43.0


From f9d86ca5ddca4218d8ae3dc6c32529f9e6cf0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 17/86] fix: encoding an empty vector as a time is an error,
 not a crash

---
 value/sys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/sys.go b/value/sys.go
index f95ced6..78b2d85 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -184,6 +184,9 @@ func encodeTime(c Context, u, v *Vector) Value {
 	if r != 't' && r != 'T' {
 		Errorf("illegal left operand %s for encode", u)
 	}
+	if v.Len() == 0 {
+		Errorf("empty right operand for encode")
+	}
 	// TODO: more than one value
 	return timeVec(timeFromValue(c, v.At(0)))
 }
-- 
2.43.0


From 9228689968c59f85ea1d11aedb9ebdfe925d2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 18/86] fix: decoding a time no longer changes its seconds
 element

---
 value/sys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/sys.go b/value/sys.go
index 78b2d85..9ae891e 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -285,8 +285,9 @@ func decodeTime(c Context, u, v *Vector) Value {
 }
 
 // secNsec converts a seconds value into whole seconds and nanoseconds.
-func secNsec(fs *big.Float) (sec, nsec int64) {
+func secNsec(f *big.Float) (sec, nsec int64) {
 	var s big.Int
+	fs := new(big.Float).Copy(f) // Do not change the argument.
 	fs.Int(&s)
 	fs.Sub(fs, big.NewFloat(0).SetInt(&s))
 	fs.Mul(fs, big.NewFloat(1e9))
-- 
2.43.0


From 46a4658b964279dfed449672efe789318526a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:56 +0000
Subject: [PATCH 19/86] fix: decoding a time honors its zone offset when it
 equals the local one

---
 value/sys.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index 9ae891e..be05f3e 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -213,7 +213,6 @@ func decodeTime(c Context, u, v *Vector) Value {
 	}
 	year, month, day, hour, min := 0, 1, 1, 0, 0
 	sec, nsec := int64(0), int64(0)
-	now := time.Now()
 	loc := c.Config().Location()
 	toInt := func(v Value) int {
 		i, ok := v.(Int)
@@ -231,12 +230,9 @@ func decodeTime(c Context, u, v *Vector) Value {
 		Errorf("invalid time vector %s", v)
 	case 7:
 		offset := toInt(v.At(6))
-		_, nowOffset := now.Zone()
-		if offset != nowOffset {
-			hour := offset / 3600
-			min := (offset - (3600 * hour)) / 60
-			loc = time.FixedZone(fmt.Sprintf("%d:%02d", hour, min), offset)
-		}
+		hour := offset / 3600
+		min := (offset - (3600 * hour)) / 60
+		loc = time.FixedZone(fmt.Sprintf("%d:%02d", hour, min), offset)
 		fallthrough
 	case 6:
 		switch s := v.At(5).(type) {
-- 
2.43.0


From 846ac9cf462812a0e89444de2ed12813b6f55d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:03 +0000
Subject: [PATCH 20/86] fix: times before 1970 keep their nanoseconds

---
 value/sys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/value/sys.go b/value/sys.go
index be05f3e..7134629 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -287,7 +287,12 @@ func secNsec(f *big.Float) (sec, nsec int64) {
 	fs.Int(&s)
 	fs.Sub(fs, big.NewFloat(0).SetInt(&s))
 	fs.Mul(fs, big.NewFloat(1e9))
-	fs.Add(fs, big.NewFloat(0.5))
+	// Round to nearest.
+	half := big.NewFloat(0.5)
+	if fs.Sign() < 0 {
+		half.Neg(half)
+	}
+	fs.Add(fs, half)
 	ns, _ := fs.Int64()
 	return s.Int64(), ns
 }
-- 
2.43.0


From fdc33a400e526b9e1d35473f4ef58987f652a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:50 +0000
Subject: [PATCH 21/86] fix: builtin operators do not use user redefinitions of
 other builtins

---
 value/complex.go | 8 +++++---
 value/eval.go    | 3 ++-
 value/unary.go   | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/value/complex.go b/value/complex.go
index 3197751..6efbbb3 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -193,9 +193,11 @@ func (c Complex) div(ctx Context, d Complex) Complex {
 func (c Complex) floor(ctx Context) Complex {
 	r := c.real
 	i := c.imag
-	b := NewComplex(ctx.EvalUnary("floor", r), ctx.EvalUnary("floor", i))
-	x := ctx.EvalBinary(r, "mod", one)
-	y := ctx.EvalBinary(i, "mod", one)
+	// Use the builtin operators even if the user has redefined them.
+	floor, mod := UnaryOps["floor"], BinaryOps["mod"]
+	b := NewComplex(floor.EvalUnary(ctx, r), floor.EvalUnary(ctx, i))
+	x := mod.EvalBinary(ctx, r, one)
+	y := mod.EvalBinary(ctx, i, one)
 	if isTrue("floor", ctx.EvalBinary(one, ">", ctx.EvalBinary(x, "+", y))) {
 		return b
 	}
diff --git a/value/eval.go b/value/eval.go
index 4650297..5145ddd 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -883,7 +883,8 @@ func isTrue(fnName string, v Value) bool {
 
 // sgn is a wrapper for calling "sgn v".
 func sgn(c Context, v Value) int {
-	return int(c.EvalUnary("sgn", v).(Int))
+	// Use the builtin operator even if the user has redefined it.
+	return int(UnaryOps["sgn"].EvalUnary(c, v).(Int))
 }
 
 // inverse returns 1/v for any scalar value, errors otherwise.
diff --git a/value/unary.go b/value/unary.go
index acc6ca4..577d181 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -820,7 +820,7 @@ func init() {
 					return NewVectorSeq(flatten(v.(*Vector)))
 				},
 				matrixType: func(c Context, v Value) Value {
-					return c.EvalUnary("flatten", v.(*Matrix).data)
+					return NewVectorSeq(flatten(v.(*Matrix).data))
 				},
 			},
 		},
-- 
2.43.0


From 920868bc9d659988132f0cc3e620ac18ee0747c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 22/86] fix: rand and user-defined operators are not evaluated
 in parallel

---
 value/eval.go | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 5145ddd..0e0bf09 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -167,17 +167,19 @@ func Product(c Context, u Value, op string, v Value) Value {
 }
 
 // safeBinary reports whether the binary operator op is safe to parallelize.
-func safeBinary(op string) bool {
+func safeBinary(c Context, op string) bool {
 	// ? uses the random number generator,
 	// which maintains global state.
-	return BinaryOps[op] != nil && op != "?"
+	// User-defined operators use the stack and may have side effects.
+	return BinaryOps[op] != nil && op != "?" && !c.UserDefined(op, true)
 }
 
 // safeUnary reports whether the unary operator op is safe to parallelize.
-func safeUnary(op string) bool {
-	// ? uses the random number generator,
+func safeUnary(c Context, op string) bool {
+	// ? and rand use the random number generator,
 	// which maintains global state.
-	return UnaryOps[op] != nil && op != "?"
+	// User-defined operators use the stack and may have side effects.
+	return UnaryOps[op] != nil && op != "?" && op != "rand" && !c.UserDefined(op, false)
 }
 
 // knownAssoc reports whether the binary op is known to be associative.
@@ -270,7 +272,7 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 		}
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
-		pfor(safeBinary(left) && safeBinary(right), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, left) && safeBinary(c, right), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				i := x / vstride * n
 				j := x % vstride
@@ -301,7 +303,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 	case *Vector:
 		v := v.(*Vector)
 		data := newVectorEditor(u.Len()*v.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())).Inner())
 			}
@@ -312,7 +314,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		udata := u.Data()
 		vdata := v.Data()
 		data := newVectorEditor(udata.Len()*vdata.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())).Inner())
 			}
@@ -349,7 +351,7 @@ func Reduce(c Context, op string, v Value) Value {
 		}
 		shape := v.shape[:v.Rank()-1]
 		data := newVectorEditor(size(shape), nil)
-		pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), stride, data.Len(), func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := stride * i
 				pos := index + stride - 1
@@ -393,7 +395,7 @@ func ReduceFirst(c Context, op string, v Value) Value {
 	}
 	shape := m.shape[1:m.Rank()]
 	data := newVectorEditor(size(shape), nil)
-	pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+	pfor(safeBinary(c, op), stride, data.Len(), func(lo, hi int) {
 		for i := lo; i < hi; i++ {
 			pos := i + m.data.Len() - stride
 			acc := m.data.At(pos)
@@ -444,7 +446,7 @@ func Scan(c Context, op string, v Value) Value {
 		}
 		data := newVectorEditor(v.data.Len(), nil)
 		nrows := size(v.shape[:len(v.shape)-1])
-		pfor(safeBinary(op), stride, nrows, func(lo, hi int) {
+		pfor(safeBinary(c, op), stride, nrows, func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := i * stride
 				// This is fundamentally O(n²) in the general case.
@@ -653,7 +655,7 @@ func Each(c Context, op string, v Value) Value {
 func unaryVectorOp(c Context, op string, i Value) Value {
 	u := i.(*Vector)
 	n := newVectorEditor(u.Len(), nil)
-	pfor(safeUnary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeUnary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalUnary(op, u.At(k)))
 		}
@@ -665,7 +667,7 @@ func unaryVectorOp(c Context, op string, i Value) Value {
 func unaryMatrixOp(c Context, op string, i Value) Value {
 	u := i.(*Matrix)
 	n := newVectorEditor(u.data.Len(), nil)
-	pfor(safeUnary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeUnary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalUnary(op, u.data.At(k)))
 		}
@@ -678,7 +680,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	u, v := i.(*Vector), j.(*Vector)
 	if u.Len() == 1 {
 		n := newVectorEditor(v.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.At(0), op, v.At(k)))
 			}
@@ -687,7 +689,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	}
 	if v.Len() == 1 {
 		n := newVectorEditor(u.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.At(k), op, v.At(0)))
 			}
@@ -696,7 +698,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	}
 	u.sameLength(v)
 	n := newVectorEditor(u.Len(), nil)
-	pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalBinary(u.At(k), op, v.At(k)))
 		}
@@ -716,7 +718,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Scalar op Matrix.
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(0), op, v.data.At(k)))
 			}
@@ -724,7 +726,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 	case isScalar(v):
 		// Matrix op Scalar.
 		n = newVectorEditor(u.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(0)))
 			}
@@ -734,7 +736,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
 		dim := u.shape[0]
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k%dim), op, v.data.At(k)))
 			}
@@ -743,7 +745,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Matrix op Vector.
 		n = newVectorEditor(u.data.Len(), nil)
 		dim := v.shape[0]
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(k%dim)))
 			}
@@ -752,7 +754,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Matrix op Matrix.
 		u.sameShape(v)
 		n = newVectorEditor(u.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(k)))
 			}
-- 
2.43.0


From 8dd786e5d994f9c51309a804762a3c2d325d0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 23/86] fix: scan of a user-redefined operator does not assume
 it is associative

---
 value/eval.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 0e0bf09..97fbb91 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -183,7 +183,10 @@ func safeUnary(c Context, op string) bool {
 }
 
 // knownAssoc reports whether the binary op is known to be associative.
-func knownAssoc(op string) bool {
+func knownAssoc(c Context, op string) bool {
+	if c.UserDefined(op, true) {
+		return false
+	}
 	switch op {
 	case "+", "*", "min", "max", "or", "and", "xor", "|", "&", "^":
 		return true
@@ -426,7 +429,7 @@ func Scan(c Context, op string, v Value) Value {
 		// This is fundamentally O(n²) in the general case.
 		// We make it O(n) for known associative ops.
 		values.Set(0, v.At(0))
-		if knownAssoc(op) {
+		if knownAssoc(c, op) {
 			for i := 1; i < v.Len(); i++ {
 				values.Set(i, c.EvalBinary(values.At(i-1), op, v.At(i)))
 			}
@@ -452,7 +455,7 @@ func Scan(c Context, op string, v Value) Value {
 				// This is fundamentally O(n²) in the general case.
 				// We make it O(n) for known associative ops.
 				data.Set(index, v.data.At(index))
-				if knownAssoc(op) {
+				if knownAssoc(c, op) {
 					for j := 1; j < stride; j++ {
 						data.Set(index+j, c.EvalBinary(data.At(index+j-1), op, v.data.At(index+j)))
 					}
-- 
2.43.0


From a97d344bebfceff7e33311250b66b8e71edf652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 24/86] fix: an error in a parallel evaluation does not depend
 on scheduling

---
 value/eval.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 97fbb91..886e353 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -11,6 +11,7 @@ import (
 	"runtime"
 	"slices"
 	"strings"
+	"sync"
 )
 
 type valueType int
@@ -221,27 +222,24 @@ func pfor(ok bool, size, n int, f func(lo, hi int)) {
 	if q := n * size / pforMinWork; q < p {
 		p = q
 	}
-	c := make(chan interface{}, p)
+	errs := make([]interface{}, p)
+	var wg sync.WaitGroup
 	for i := 0; i < p; i++ {
 		lo, hi := i*n/p, (i+1)*n/p
+		wg.Add(1)
 		go func() {
-			defer sendRecover(c)
+			defer wg.Done()
+			defer func() { errs[i] = recover() }()
 			f(lo, hi)
 		}()
 	}
-	var err interface{}
-	for i := 0; i < p; i++ {
-		if e := <-c; e != nil {
-			err = e
+	wg.Wait()
+	// Report the error that sequential evaluation would have reported.
+	for _, err := range errs {
+		if err != nil {
+			panic(err)
 		}
 	}
-	if err != nil {
-		panic(err)
-	}
-}
-
-func sendRecover(c chan<- interface{}) {
-	c <- recover()
 }
 
 // inner product computes an inner product such as "+.*".
-- 
2.43.0


From c76f3bc00c6450d24592cb511b8b6b59fc584752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:18 +0000
Subject: [PATCH 25/86] fix: locals of a user-defined operator start out
 undefined

---
 exec/context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exec/context.go b/exec/context.go
index bf7b06b..e56d25e 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -96,6 +96,12 @@ func (c *Context) push(fn *Function) {
 	}
 	c.frameSizes = append(c.frameSizes, len(fn.Locals))
 	c.stack = c.stack[:n+len(fn.Locals)]
+	// Clear values left over from earlier calls.
+	for _, v := range c.stack[n:] {
+		if v != nil {
+			v.Assign(nil)
+		}
+	}
 }
 
 // pop pops the top frame from the stack.
-- 
2.43.0


From acb728883be12fe685e093dd7a26b51f4651dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:02 +0000
Subject: [PATCH 26/86] fix: indexed assignment with repeated indexes does not
 depend on scheduling

---
 value/index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value/index.go b/value/index.go
index 4d2f58b..ff75cd5 100644
--- a/value/index.go
+++ b/value/index.go
@@ -340,7 +340,9 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 	}
 	copySize := int(size(ix.shape[ix.indexDim:]))
 	n := ix.outSize / copySize
-	pfor(true, copySize, n, func(lo, hi int) {
+	// Indexes may be repeated, in which case the last one must win,
+	// so the loop cannot run in parallel.
+	pfor(false, copySize, n, func(lo, hi int) {
 		if ix.indexVector != nil {
 			for i := lo; i < hi; i++ {
 				v := ix.indexVector.At(i).(*Vector)
-- 
2.43.0


From 2380648e5b0e2b2a08837b838ba1e4faf7a55295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 27/86] fix: indexed assignment to an undefined local is an
 error, not a crash

---
 value/index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/index.go b/value/index.go
index ff75cd5..9c4bcdc 100644
--- a/value/index.go
+++ b/value/index.go
@@ -81,6 +81,9 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 	if lvarx != nil {
 		if lvarx.Local >= 1 {
 			lvar = context.Local(lvarx.Local)
+			if lvar.value == nil {
+				Errorf("undefined local variable %q", lvarx.Name)
+			}
 		} else {
 			lvar = context.Global(lvarx.Name)
 			if lvar == nil {
-- 
2.43.0


From c0b4a441c4a2442611e8e42d4f8117bc13b9ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:17 +0000
Subject: [PATCH 28/86] fix: rational and complex scalars combine with matrices
 as integers do

---
 value/bigrat.go  | 2 +-
 value/complex.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/bigrat.go b/value/bigrat.go
index 76fe665..ef0c1be 100644
--- a/value/bigrat.go
+++ b/value/bigrat.go
@@ -193,7 +193,7 @@ func (r BigRat) toType(op string, conf *config.Config, which valueType) Value {
 	case vectorType:
 		return oneElemVector(r)
 	case matrixType:
-		return NewMatrix([]int{1, 1}, NewVector(r))
+		return NewMatrix([]int{1}, NewVector(r))
 	}
 	Errorf("%s: cannot convert rational to %s", op, which)
 	return nil
diff --git a/value/complex.go b/value/complex.go
index 6efbbb3..69486bb 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -76,7 +76,7 @@ func (c Complex) toType(op string, conf *config.Config, which valueType) Value {
 	case vectorType:
 		return oneElemVector(c)
 	case matrixType:
-		return NewMatrix([]int{1, 1}, NewVector(c))
+		return NewMatrix([]int{1}, NewVector(c))
 	}
 	Errorf("%s: cannot convert complex to %s", op, which)
 	return nil
-- 
2.43.0


From 475caa9bd746c4a65a31002fdd96cdd3874aa790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:27 +0000
Subject: [PATCH 29/86] fix: sin, cos, tan and tanh do not change their
 argument; cos reduces negative arguments

---
 value/sin.go  | 10 ++++++----
 value/sinh.go |  6 ++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/value/sin.go b/value/sin.go
index b40ce30..4217f9a 100644
--- a/value/sin.go
+++ b/value/sin.go
@@ -40,6 +40,7 @@ func tan(c Context, v Value) Value {
 		Errorf("tangent of infinity")
 	}
 	negate := false
+	x = newFloat(c).Set(x) // Don't modify argument!
 	if x.Sign() < 0 {
 		x.Neg(x)
 		negate = true
@@ -63,6 +64,7 @@ func floatSin(c Context, x *big.Float) *big.Float {
 		Errorf("sine of infinity")
 	}
 	negate := false
+	x = newFloat(c).Set(x) // Don't modify argument!
 	if x.Sign() < 0 {
 		x.Neg(x)
 		negate = true
@@ -87,6 +89,8 @@ func floatCos(c Context, x *big.Float) *big.Float {
 	if x.IsInf() {
 		Errorf("cosine of infinity")
 	}
+	// cos(-x) == cos(x), and twoPiReduce wants x >= 0.
+	x = newFloat(c).Abs(x) // Don't modify argument!
 	twoPiReduce(c, x)
 
 	// cos(x) = 1 - x²/2! + x⁴/4! - ...
@@ -184,11 +188,9 @@ func complexCos(c Context, v Complex) Value {
 
 func complexTan(c Context, v Complex) Value {
 	// Use the formula: tan(x+yi) = (sin(2x) + i sinh (2y))/(cos(2x) + cosh(2y))
-	x := floatSelf(c, v.real).Float
-	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x := newFloat(c).Mul(floatSelf(c, v.real).Float, floatTwo)
+	y := newFloat(c).Mul(floatSelf(c, v.imag).Float, floatTwo)
 	sin2X := floatSin(c, x)
 	sinh2Y := floatSinh(c, y)
 	cos2X := floatCos(c, x)
diff --git a/value/sinh.go b/value/sinh.go
index e006585..a23967e 100644
--- a/value/sinh.go
+++ b/value/sinh.go
@@ -143,11 +143,9 @@ func complexCosh(c Context, v Complex) Value {
 func complexTanh(c Context, v Complex) Value {
 	// Use the formula: tanh(x+yi) = (sinh(2x) + i sin(2y)/(cosh(2x) + cos(2y))
 	// First turn v into (a + bi) where a and b are big.Floats.
-	x := floatSelf(c, v.real).Float
-	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x := newFloat(c).Mul(floatSelf(c, v.real).Float, floatTwo)
+	y := newFloat(c).Mul(floatSelf(c, v.imag).Float, floatTwo)
 	sinh2X := floatSinh(c, x)
 	sin2Y := floatSin(c, y)
 	cosh2X := floatCosh(c, x)
-- 
2.43.0


From 25f93c3f0a88543b35aba031c916c4cf7786f410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:35 +0000
Subject: [PATCH 30/86] fix: exponential of a negative number does not lose its
 digits to cancellation

---
 value/power.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/value/power.go b/value/power.go
index b82d3f7..9c83b4b 100644
--- a/value/power.go
+++ b/value/power.go
@@ -100,6 +100,12 @@ func floatPower(c Context, bx, bexp BigFloat) Value {
 // exponential computes exp(x) using the Taylor series. It converges quickly
 // since we call it with only small values of x.
 func exponential(conf *config.Config, x *big.Float) *big.Float {
+	// For negative x the terms of the series alternate and cancel, so use e**x == 1/e**-x.
+	if x.Sign() < 0 {
+		z := exponential(conf, newF(conf).Neg(x))
+		return z.Quo(floatOne, z)
+	}
+
 	// The Taylor series for e**x, exp(x), is 1 + x + x²/2! + x³/3! ...
 
 	xN := newF(conf).Set(x)
-- 
2.43.0


From 6df33fe35a4c43053cf350564bb31ecc33325cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 31/86] fix: asinh of a negative number does not lose its
 digits to cancellation

---
 value/asinh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/value/asinh.go b/value/asinh.go
index 1d94207..68c028f 100644
--- a/value/asinh.go
+++ b/value/asinh.go
@@ -47,6 +47,11 @@ func atanh(c Context, v Value) Value {
 // floatAsinh computes asinh(x) using the formula asinh(x) = log(x + sqrt(x²+1)).
 // The domain is the real line.
 func floatAsinh(c Context, x *big.Float) *big.Float {
+	// For negative x the sum cancels, but asinh(-x) == -asinh(x).
+	if x.Sign() < 0 {
+		z := floatAsinh(c, newFloat(c).Neg(x))
+		return z.Neg(z)
+	}
 	z := newFloat(c).Set(x)
 	z.Mul(z, x)
 	z.Add(z, floatOne)
-- 
2.43.0


From 0b06e13f59d49d0204f6d388a4c8ae2d8f201da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:50 +0000
Subject: [PATCH 32/86] fix: complex square root does not lose the smaller part
 to cancellation

---
 value/sqrt.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/value/sqrt.go b/value/sqrt.go
index 8d5ff4e..3ae972e 100644
--- a/value/sqrt.go
+++ b/value/sqrt.go
@@ -29,13 +29,21 @@ func complexSqrt(c Context, v Complex) Complex {
 	a2 := newFloat(c).Mul(a, a)
 	b2 := newFloat(c).Mul(b, b)
 	mag := floatSqrt(c, a2.Add(a2, b2))
-	// The real part is sqrt(mag+a)/2.
-	r := newFloat(c).Add(mag, a)
+	if mag.Sign() == 0 {
+		return NewComplex(zero, zero)
+	}
+	// The real part is sqrt((mag+a)/2) and the imaginary part is
+	// sgn(b)*sqrt((mag-a)/2). One of them cancels, so compute the
+	// other and divide: their product is b/2.
+	r := newFloat(c).Abs(a)
+	r.Add(mag, r)
 	r = floatSqrt(c, r.Quo(r, floatTwo))
-	// The imaginary part is sgn(b)*sqrt(mag-a)/2
-	i := newFloat(c).Sub(mag, a)
+	i := newFloat(c).Abs(b)
 	i.Quo(i, floatTwo)
-	i = floatSqrt(c, i)
+	i.Quo(i, r)
+	if a.Sign() < 0 {
+		r, i = i, r
+	}
 	if b.Sign() < 0 {
 		i.Neg(i)
 	}
-- 
2.43.0


From 7044207b74bc1d4ca5bbef9cb036551c3f25fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 33/86] fix: printing nested values of several lines does not
 crash or misalign

---
 value/vector.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/value/vector.go b/value/vector.go
index 42925da..226dcfb 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -254,24 +254,18 @@ func (v *Vector) multiLineSprint(conf *config.Config, allScalars, allChars, spac
 				lastColumn[n] = line.Len()
 			}
 		}
-		// By construction all lines have same length (except for empty lines, which
-		// are never the zeroth line.)
-		cols[i] = lines[0].Len()
-		if len(strs) < len(lines) {
-			// Right-fill the lines below this element.
-			padding := blanks(cols[i] - lines[len(lines)-1].Len())
-			for j := len(strs); j < len(lines); j++ {
-				lines[j].WriteString(padding)
-			}
-		}
 		if doParens {
 			last := len(strs) - 1
 			line := lines[last]
 			line.WriteString(")")
 			lastColumn[last] = line.Len()
-			if line.Len() > cols[i] {
-				cols[i] = line.Len()
-			}
+		}
+		// Right-fill so that all lines have the same length.
+		for _, line := range lines {
+			cols[i] = max(cols[i], line.Len())
+		}
+		for _, line := range lines {
+			line.WriteString(blanks(cols[i] - line.Len()))
 		}
 	}
 	s := make([]string, len(lines))
-- 
2.43.0


From 504e28207b75ff79d44a291163adf42fa16d14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:00 +0000
Subject: [PATCH 34/86] fix: rot of a matrix with no columns ends

---
 value/unary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/unary.go b/value/unary.go
index 577d181..cd3c159 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -911,7 +911,7 @@ func init() {
 					size := int(m.Size())
 					ncols := m.shape[m.Rank()-1]
 					x := m.data.edit()
-					for index := 0; index <= size-ncols; index += ncols {
+					for index := 0; index < size; index += ncols {
 						for i, j := 0, ncols-1; i < j; i, j = i+1, j-1 {
 							xi, xj := x.At(index+i), x.At(index+j)
 							x.Set(index+i, xj)
-- 
2.43.0


From 9cea6d9d951be63e1720b09e30e6fb55e56db49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 35/86] fix: 2**n, n<<m and factorials respect )maxbits

---
 value/binary.go | 20 +++++++++++++-------
 value/unary.go  |  8 +++++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index eb3618b..9a4cf3a 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -133,6 +133,8 @@ func bigIntExp(c Context, i, j, k *big.Int) *big.Int {
 	if exp < 0 {
 		exp = -exp
 	}
+	// The result has at least exp bits. (Also, this avoids overflow below.)
+	mustFit(c.Config(), exp)
 	// "2" is just shift. math/big should do this, really.
 	if j.Cmp(bigIntTwo.Int) == 0 && exp >= 0 {
 		return i.Lsh(big.NewInt(1), uint(exp))
@@ -518,12 +520,12 @@ func init() {
 					if a < 0 || b < 0 || a > b {
 						return zero
 					}
-					aFac := factorial(a)
-					bFac := factorial(b)
-					bMinusAFac := factorial(b - a)
-					bFac.Div(bFac, aFac)
-					bFac.Div(bFac, bMinusAFac)
-					return BigInt{bFac}.shrink()
+					a = min(a, b-a)
+					// Before doing the work, check against a lower bound: the result
+					// is at least (b/a)**a * (b/(b-a))**(b-a) / (b+1).
+					x, y, n := float64(a), float64(b-a), float64(b)
+					mustFit(c.Config(), int64(x*math.Log2(n/x)+y*math.Log2(n/y)-math.Log2(n+1)))
+					return BigInt{new(big.Int).Binomial(b, a)}.shrink()
 				},
 			},
 		},
@@ -602,7 +604,11 @@ func init() {
 				bigIntType: func(c Context, u, v Value) Value {
 					i, j := u.(BigInt), v.(BigInt)
 					z := bigInt64(0)
-					z.Lsh(i.Int, shiftCount(j))
+					count := shiftCount(j)
+					if i.Sign() != 0 {
+						mustFit(c.Config(), i.BitLen()+int64(count))
+					}
+					z.Lsh(i.Int, count)
 					return z.shrink()
 				},
 				// TODO: lsh for bigfloat
diff --git a/value/unary.go b/value/unary.go
index cd3c159..b4a862a 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -7,6 +7,7 @@ package value
 import (
 	"crypto/rand"
 	"fmt"
+	"math"
 	"math/big"
 )
 
@@ -404,7 +405,12 @@ func init() {
 			elementwise: true,
 			fn: [numType]unaryFn{
 				intType: func(c Context, v Value) Value {
-					return BigInt{factorial(int64(v.(Int)))}.shrink()
+					n := int64(v.(Int))
+					if n > 1 {
+						logFac, _ := math.Lgamma(float64(n + 1))
+						mustFit(c.Config(), int64(logFac/math.Ln2))
+					}
+					return BigInt{factorial(n)}.shrink()
 				},
 			},
 		},
-- 
2.43.0


From c204dcd532094bfe8c1aa7e9a0130604e78ac299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:38 +0000
Subject: [PATCH 36/86] fix: nesting )get too deep does not disable )get for
 the rest of the session

---
 parse/special.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 6beb0c8..39bfbf3 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -391,10 +391,10 @@ func (p *Parser) runFromFile(context value.Context, name string) {
 
 // runFromReader executes the contents of the io.Reader, identified by name.
 func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) {
-	runDepth++
-	if runDepth > 10 {
+	if runDepth >= 10 {
 		p.errorf("invocations of %q nested too deep", name)
 	}
+	runDepth++
 	defer func() {
 		runDepth--
 		err := recover()
@@ -417,10 +417,10 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 }
 
 func (p *Parser) runUntilError(name string) error {
-	runDepth++
-	if runDepth > 10 {
+	if runDepth >= 10 {
 		p.errorf("get %q nested too deep", name)
 	}
+	runDepth++
 	defer func() {
 		runDepth--
 		err := recover()
-- 
2.43.0


From f0f16741a8d4503555cfae632fd7627f49bc4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:33 +0000
Subject: [PATCH 37/86] fix: )prompt reports the prompt and )var prints to the
 session's output

---
 parse/special.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 39bfbf3..b6770f3 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -312,7 +312,7 @@ Switch:
 		conf.SetFloatPrec(uint(prec))
 	case "prompt":
 		if p.peek().Type == scan.EOF {
-			p.Printf("%q\n", conf.Format())
+			p.Printf("%q\n", conf.Prompt())
 			break Switch
 		}
 		conf.SetPrompt(p.getString())
@@ -359,9 +359,9 @@ Switch:
 		if value == nil {
 			p.errorf("undefined global variable %q", name)
 		}
-		fmt.Printf("%s = ", name)
+		p.Printf("%s = ", name)
 		put(conf, conf.Output(), value.Value(), false)
-		fmt.Print("\n")
+		p.Printf("\n")
 	default:
 		p.errorf(")%s: not recognized", text)
 	}
-- 
2.43.0


From ab5b2d5dbf7ebd440607675cb4dce54ecafa19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:39 +0000
Subject: [PATCH 38/86] fix: saved strings inside vectors and one-element
 vectors read back as they were

---
 parse/save.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index 847c312..1cd30a5 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -173,7 +173,7 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 			// These have prec 0 and are easy.
 			// They shouldn't appear anyway, but be safe.
 			fmt.Fprintf(out, "%g", val)
-			return
+			break
 		}
 		// TODO The actual value might not have the same prec as
 		// the configuration, so we might not get this right
@@ -186,9 +186,21 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 		fmt.Fprintf(out, "j")
 		put(conf, out, imag, false)
 	case *value.Vector:
+		if val.Len() == 1 {
+			// A single value would be read as a scalar or as the
+			// contained vector or matrix, so make it a vector.
+			elem := val.At(0)
+			if value.IsScalarType(elem) {
+				fmt.Fprint(out, ",")
+			} else {
+				fmt.Fprint(out, "box ")
+			}
+			put(conf, out, elem, !value.IsScalarType(elem))
+			break
+		}
 		if val.AllChars() {
 			fmt.Fprintf(out, "%q", val.Sprint(conf))
-			return
+			break
 		}
 		for i, v := range val.All() {
 			if i > 0 {
-- 
2.43.0


From dd6edc1dcc3237f5b4181a3d9a010a36f6b67e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 39/86] fix: a setting command with excess arguments changes
 nothing

---
 parse/special.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index b6770f3..57c9f13 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -43,6 +43,14 @@ func (p *Parser) need(want ...scan.Type) scan.Token {
 	panic("not reached")
 }
 
+// needEnd errors out if there is more text in a special command. It is called
+// before the command takes effect so that a bad command changes nothing.
+func (p *Parser) needEnd() {
+	if tok := p.peek(); tok.Type != scan.EOF {
+		p.errorf("expected %s, got %s", scan.EOF, tok)
+	}
+}
+
 // nextDecimalNumber returns the next number, which
 // must be a non-negative int32 (even though the result is of type int).
 func (p *Parser) nextDecimalNumber() int {
@@ -164,6 +172,7 @@ Switch:
 			break Switch
 		}
 		base := p.nextDecimalNumber()
+		p.needEnd()
 		if base != 0 && (base < 2 || 16 < base) {
 			p.errorf("illegal base %d", base)
 		}
@@ -200,6 +209,7 @@ Switch:
 			if number < 0 {
 				p.Println("illegal value")
 			}
+			p.needEnd()
 			conf.SetDebug(name, number)
 		}
 	case "demo":
@@ -220,7 +230,9 @@ Switch:
 			p.Printf("%q\n", conf.Format())
 			break Switch
 		}
-		conf.SetFormat(p.getString())
+		format := p.getString()
+		p.needEnd()
+		conf.SetFormat(format)
 	case "get":
 		if p.peek().Type == scan.EOF {
 			p.runFromFile(p.context, defaultFile)
@@ -233,6 +245,7 @@ Switch:
 			break Switch
 		}
 		max := p.nextDecimalNumber()
+		p.needEnd()
 		conf.SetMaxBits(uint(max))
 	case "maxdigits":
 		if p.peek().Type == scan.EOF {
@@ -240,6 +253,7 @@ Switch:
 			break Switch
 		}
 		max := p.nextDecimalNumber()
+		p.needEnd()
 		conf.SetMaxDigits(uint(max))
 	case "maxstack":
 		if p.peek().Type == scan.EOF {
@@ -247,6 +261,7 @@ Switch:
 			break Switch
 		}
 		max := p.nextDecimalNumber()
+		p.needEnd()
 		conf.SetMaxStack(uint(max))
 	case "op", "ops": // We keep forgetting whether it's a plural or not.
 		if p.peek().Type == scan.EOF {
@@ -299,6 +314,7 @@ Switch:
 		if origin < 0 {
 			p.errorf("illegal origin %d", origin)
 		}
+		p.needEnd()
 		conf.SetOrigin(origin)
 	case "prec":
 		if p.peek().Type == scan.EOF {
@@ -309,13 +325,16 @@ Switch:
 		if prec == 0 || prec > 1e6 {
 			p.errorf("illegal prec %d", prec) // TODO: make 0 be disable?
 		}
+		p.needEnd()
 		conf.SetFloatPrec(uint(prec))
 	case "prompt":
 		if p.peek().Type == scan.EOF {
 			p.Printf("%q\n", conf.Prompt())
 			break Switch
 		}
-		conf.SetPrompt(p.getString())
+		prompt := p.getString()
+		p.needEnd()
+		conf.SetPrompt(prompt)
 	case "save":
 		// Must restore ibase, obase for save.
 		conf.SetBase(ibase, obase)
@@ -329,14 +348,18 @@ Switch:
 			p.Println(conf.RandomSeed())
 			break Switch
 		}
-		conf.SetRandomSeed(uint64(p.nextDecimalNumber64()))
+		seed := p.nextDecimalNumber64()
+		p.needEnd()
+		conf.SetRandomSeed(uint64(seed))
 	case "timezone":
 		if p.peek().Type == scan.EOF {
 			_, offset := time.Now().In(conf.Location()).Zone()
 			p.Println(conf.TimeZone(), offset)
 			break Switch
 		}
-		err := conf.SetLocation(p.getString())
+		zone := p.getString()
+		p.needEnd()
+		err := conf.SetLocation(zone)
 		if err != nil {
 			p.errorf("no such location: %s", err)
 		}
-- 
2.43.0


From 6209a85ec18d4f4b4d5060c77770052edaaf2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 40/86] fix: tracing and CPU times print to the session's
 output

---
 run/run.go    | 2 +-
 value/eval.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/run/run.go b/run/run.go
index 6722827..cc63561 100644
--- a/run/run.go
+++ b/run/run.go
@@ -93,7 +93,7 @@ func Run(p *parse.Parser, context value.Context, interactive bool) (success bool
 		if interactive {
 			if exprs != nil && conf.Debug("cpu") > 0 {
 				if real, _, _ := conf.CPUTime(); real != 0 {
-					fmt.Printf("(%s)\n", conf.PrintCPUTime())
+					fmt.Fprintf(conf.Output(), "(%s)\n", conf.PrintCPUTime())
 				}
 			}
 			fmt.Fprintln(writer)
diff --git a/value/eval.go b/value/eval.go
index 886e353..a823859 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -71,7 +71,7 @@ func (op *unaryOp) EvalUnary(c Context, v Value) Value {
 		Errorf("unary %s not implemented on type %s", op.name, which)
 	}
 	if c.Config().Tracing(2) {
-		fmt.Printf("\t%s> %s %s\n", c.TraceIndent(), op.name, v)
+		fmt.Fprintf(c.Config().Output(), "\t%s> %s %s\n", c.TraceIndent(), op.name, v)
 	}
 	return fn(c, v)
 }
@@ -126,7 +126,7 @@ func (op *binaryOp) EvalBinary(c Context, u, v Value) Value {
 		Errorf("binary %s not implemented on type %s", op.name, whichV)
 	}
 	if conf.Tracing(2) {
-		fmt.Printf("\t%s> %s %s %s\n", c.TraceIndent(), u, op.name, v)
+		fmt.Fprintf(c.Config().Output(), "\t%s> %s %s %s\n", c.TraceIndent(), u, op.name, v)
 	}
 	return fn(c, u, v)
 }
-- 
2.43.0


From 11daf675389d67d395581f6475f8e17a47228329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:25 +0000
Subject: [PATCH 41/86] fix: iota with a huge origin does not use memory in
 proportion to the origin

---
 value/index.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/value/index.go b/value/index.go
index 9c4bcdc..7701344 100644
--- a/value/index.go
+++ b/value/index.go
@@ -419,6 +419,14 @@ var (
 // constIota generates a slice equivalent to the result of "iota n".
 // The returned value's elements are shared and must not be overwritten.
 func constIota(origin, n int) []Value {
+	// Don't grow the shared slice just because of a strange origin.
+	if origin > 1<<16 {
+		result := make([]Value, n)
+		for i := range result {
+			result[i] = Int(origin + i).maybeBig()
+		}
+		return result
+	}
 	for {
 		iotaLock.RLock()
 		if len(staticIota) >= origin+n {
-- 
2.43.0


From 0dfc3732d10b85c2c034c62f3f1211f32751cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:03 +0000
Subject: [PATCH 42/86] fix: a failed op definition leaves names, variables and
 definitions as they were

---
 parse/function.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index 5c1a957..d2ff1ae 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -6,6 +6,7 @@ package parse
 
 import (
 	"fmt"
+	"slices"
 
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
@@ -59,6 +60,7 @@ func (p *Parser) functionDefn() {
 	}
 
 	// Prepare to declare arguments.
+	defer p.context.ForgetAll()
 	argNames := make(map[string]bool)
 	declare := func(x *value.VarExpr) {
 		if x.Name == fn.Name {
@@ -91,8 +93,9 @@ func (p *Parser) functionDefn() {
 
 	// Define it, but prepare to undefine if there's trouble.
 	prevDefn := installMap[fn.Name]
+	prevVar := p.context.Globals[fn.Name]
+	prevDefs := slices.Clone(p.context.Defs)
 	p.context.Define(fn)
-	defer p.context.ForgetAll()
 	succeeded := false
 	defer func() {
 		if !succeeded {
@@ -101,6 +104,10 @@ func (p *Parser) functionDefn() {
 			} else {
 				installMap[fn.Name] = prevDefn
 			}
+			if prevVar != nil {
+				p.context.Globals[fn.Name] = prevVar
+			}
+			p.context.Defs = prevDefs
 		}
 	}()
 
-- 
2.43.0


From f3d5bc39d06d0e077d24441f6124870afeab2358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:59 +0000
Subject: [PATCH 43/86] fix: )debug parse does not crash on a unary op
 definition

---
 parse/function.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index d2ff1ae..a10e18b 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -157,7 +157,11 @@ func (p *Parser) functionDefn() {
 	funcVars(fn)
 	succeeded = true
 	if p.context.Config().Debug("parse") > 0 {
-		p.Printf("op %s %s %s = %s\n", fn.Left.ProgString(), fn.Name, fn.Right.ProgString(), tree(fn.Body))
+		left := ""
+		if fn.IsBinary {
+			left = fn.Left.ProgString() + " "
+		}
+		p.Printf("op %s%s %s = %s\n", left, fn.Name, fn.Right.ProgString(), tree(fn.Body))
 	}
 }
 
-- 
2.43.0


From 824873257e9c517d783e77d013d4f7f7f25fe91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:20 +0000
Subject: [PATCH 44/86] fix: saving declares ops used only in reductions,
 scans, products and each before their users

---
 parse/function.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/parse/function.go b/parse/function.go
index a10e18b..bb1bd9b 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -7,6 +7,7 @@ package parse
 import (
 	"fmt"
 	"slices"
+	"strings"
 
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
@@ -192,12 +193,23 @@ func references(c *exec.Context, body []value.Expr) []exec.OpDef {
 		walk(expr, false, func(expr value.Expr, _ bool) {
 			switch e := expr.(type) {
 			case *value.UnaryExpr:
-				if c.UnaryFn[e.Op] != nil {
-					addReference(&refs, e.Op, false)
+				op, isBinary := strings.TrimRight(e.Op, "@"), false
+				// Reductions and scans use a binary op.
+				for _, suffix := range []string{"/", "\\", "/%", "\\%"} {
+					if f, ok := strings.CutSuffix(op, suffix); ok && f != "" {
+						op, isBinary = f, true
+						break
+					}
+				}
+				if c.UserDefined(op, isBinary) {
+					addReference(&refs, op, isBinary)
 				}
 			case *value.BinaryExpr:
-				if c.BinaryFn[e.Op] != nil {
-					addReference(&refs, e.Op, true)
+				// Inner and outer products use one or two binary ops.
+				for _, op := range strings.Split(strings.Trim(e.Op, "@"), ".") {
+					if c.UserDefined(op, true) {
+						addReference(&refs, op, true)
+					}
 				}
 			}
 		})
-- 
2.43.0


From 4c16dc6290b2ee7e8bab11bb6b1f3c18bad76e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:56 +0000
Subject: [PATCH 45/86] fix: unique keeps the first of several equal values

---
 value/sets.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/sets.go b/value/sets.go
index e99aea2..52c8791 100644
--- a/value/sets.go
+++ b/value/sets.go
@@ -128,7 +128,8 @@ func unique(c Context, v Value) Value {
 		sorted[i] = indexedValue{i, x}
 	}
 	// Sort based on the values, preserving index information.
-	sort.Slice(sorted, func(i, j int) bool {
+	// The sort is stable so that the first of several equal values is kept.
+	sort.SliceStable(sorted, func(i, j int) bool {
 		c := OrderedCompare(c, sorted[i].v, sorted[j].v)
 		if c == 0 {
 			// Choose lower type. You need to choose one, so pick lowest.
-- 
2.43.0


From 40aef558a700ad3ccfd995ff0f981f6748e2921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 46/86] fix: rotating a one-element vector gives a vector

---
 value/vector.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/value/vector.go b/value/vector.go
index 226dcfb..b13122c 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -411,9 +411,6 @@ func (v *Vector) rotate(n int) Value {
 	if v.Len() == 0 {
 		return v
 	}
-	if v.Len() == 1 {
-		return v.At(0)
-	}
 	n %= v.Len()
 	if n < 0 {
 		n += v.Len()
-- 
2.43.0


From dc000b44feb214af75dbbde9954dba2e6b14b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:13 +0000
Subject: [PATCH 47/86] fix: a one-element vector has an inverse

---
 value/vector.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/value/vector.go b/value/vector.go
index b13122c..438fc5c 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -563,9 +563,6 @@ func (v *Vector) inverse(c Context) Value {
 	if v.Len() == 0 {
 		Errorf("inverse of empty vector")
 	}
-	if v.Len() == 1 {
-		return inverse(c, v)
-	}
 	// We could do this evaluation using "conj" and "+.*" but avoid the overhead.
 	conj := v.edit()
 	for i, x := range conj.All() {
-- 
2.43.0


From da51ea82b7e5eaf6a9f47a3cb6d77b16d4982006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:15 +0000
Subject: [PATCH 48/86] fix: mobile Reset resets every setting

---
 mobile/mobile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mobile/mobile.go b/mobile/mobile.go
index 42349bc..94fb937 100644
--- a/mobile/mobile.go
+++ b/mobile/mobile.go
@@ -85,6 +85,7 @@ func (d *Demo) Next() (result string, err error) {
 
 // Reset clears all state to the initial value.
 func Reset() {
+	conf = config.Config{}
 	conf.SetFormat("")
 	conf.SetMaxBits(1e9)
 	conf.SetMaxDigits(1e4)
-- 
2.43.0


From 750dc376a871612ab5160a73fcbcb5e941e9f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:42 +0000
Subject: [PATCH 49/86] fix: the error for a bad count names the value, not its
 address

---
 value/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/vector.go b/value/vector.go
index 438fc5c..5f0fbf7 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -483,7 +483,7 @@ func (v *Vector) uintAt(i int, msg string) int {
 func (v *Vector) intAt(i int, msg string) int {
 	n, ok := v.At(i).(Int)
 	if !ok {
-		Errorf("%s must be a small integer: %d", msg, v.At(i))
+		Errorf("%s must be a small integer: %s", msg, v.At(i))
 	}
 	return int(n)
 }
-- 
2.43.0


From 6c55be15a624cd5fe8db70bb2a77d9bdb67309b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:50 +0000
Subject: [PATCH 50/86] fix: a matrix of one column is not a vector to be
 applied to every row

---
 value/eval.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index a823859..044e714 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -779,18 +779,10 @@ func isScalar(u *Matrix) bool {
 	return true
 }
 
-// isVector reports whether u is an 1x1x...xn item where n is the last dimension
-// of the shape, that is, an n-vector promoted to matrix.
+// isVector reports whether u is a rank-1 item of length n where n is the last
+// dimension of the shape, that is, an n-vector promoted to matrix.
 func isVector(u *Matrix, shape []int) bool {
-	if u.Rank() == 0 || len(shape) == 0 || u.shape[0] != shape[len(shape)-1] {
-		return false
-	}
-	for _, dim := range u.shape[1:] {
-		if dim != 1 {
-			return false
-		}
-	}
-	return true
+	return u.Rank() == 1 && len(shape) > 0 && u.shape[0] == shape[len(shape)-1]
 }
 
 // isZero reports whether u is a numeric zero.
-- 
2.43.0


From 66d74db42d10f85e8af17182d0eedbea3c2ca8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:19 +0000
Subject: [PATCH 51/86] fix: matrices of different shape do not match

---
 value/sets.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/value/sets.go b/value/sets.go
index 52c8791..756bb2d 100644
--- a/value/sets.go
+++ b/value/sets.go
@@ -4,7 +4,10 @@
 
 package value
 
-import "sort"
+import (
+	"slices"
+	"sort"
+)
 
 // Operations on "sets", which are really just lists that
 // can contain duplicates rather than in the mathematical
@@ -191,7 +194,7 @@ func notEqual(c Context, u, v Value) Value {
 // When comparing identically-typed values:
 //   - Complex is ordered first by real component, then by imaginary.
 //   - Vector and Matrix are ordered first by number of elements,
-//     then in lexical order of elements.
+//     then in lexical order of elements, and for Matrix then by shape.
 //
 // These are unusual rules, but they are provide a unique ordering of elements
 // sufficient for set membership. // Exported for testing, which is done by the
@@ -283,7 +286,7 @@ func OrderedCompare(c Context, u, v Value) int {
 				return s
 			}
 		}
-		return 0
+		return slices.Compare(uu.shape, vv.shape)
 	}
 	Errorf("internal error: unknown type %T in OrderedCompare", u)
 	return -1
-- 
2.43.0


From 3e4e5d667cee151f9dfd2cfe495e0b26e290bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:55 +0000
Subject: [PATCH 52/86] fix: scan shortcut for associative operators applies
 only to numbers

A scan of chars or nested arrays by an operator such as + or xor was grouped
left to right and so could succeed where its definition, a series of
reductions, is an error.
---
 value/eval.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 044e714..1a53562 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -195,6 +195,18 @@ func knownAssoc(c Context, op string) bool {
 	return false
 }
 
+// allNumbers reports whether the elements of v are all scalar numbers. The known
+// associative operators are associative only for those: grouped one way, an expression
+// with chars or nested arrays may be an error, and grouped the other way not.
+func allNumbers(v *Vector) bool {
+	for _, x := range v.All() {
+		if t := whichType(x); t == charType || t >= vectorType {
+			return false
+		}
+	}
+	return true
+}
+
 var pforMinWork = 100
 
 func MaxParallelismForTesting() {
@@ -427,7 +439,7 @@ func Scan(c Context, op string, v Value) Value {
 		// This is fundamentally O(n²) in the general case.
 		// We make it O(n) for known associative ops.
 		values.Set(0, v.At(0))
-		if knownAssoc(c, op) {
+		if knownAssoc(c, op) && allNumbers(v) {
 			for i := 1; i < v.Len(); i++ {
 				values.Set(i, c.EvalBinary(values.At(i-1), op, v.At(i)))
 			}
@@ -447,13 +459,14 @@ func Scan(c Context, op string, v Value) Value {
 		}
 		data := newVectorEditor(v.data.Len(), nil)
 		nrows := size(v.shape[:len(v.shape)-1])
+		assoc := knownAssoc(c, op) && allNumbers(v.data)
 		pfor(safeBinary(c, op), stride, nrows, func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := i * stride
 				// This is fundamentally O(n²) in the general case.
 				// We make it O(n) for known associative ops.
 				data.Set(index, v.data.At(index))
-				if knownAssoc(c, op) {
+				if assoc {
 					for j := 1; j < stride; j++ {
 						data.Set(index+j, c.EvalBinary(data.At(index+j-1), op, v.data.At(index+j)))
 					}
-- 
2.43.0


From cfcb143e7c7a1a4c5cde946726ba9c06427409a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:20 +0000
Subject: [PATCH 53/86] fix: a name assigned in a condition and used in its
 result is local

---
 parse/function.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index bb1bd9b..f488c32 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -283,7 +283,9 @@ func walk(expr value.Expr, assign bool, f func(value.Expr, bool)) {
 	case *value.UnaryExpr:
 		walk(e.Right, false, f)
 	case *value.CondExpr:
-		walk(e.Cond, false, f)
+		// The condition is evaluated before the result.
+		walk(e.Cond.Left, false, f)
+		walk(e.Cond.Right, false, f)
 	case *value.BinaryExpr:
 		walk(e.Right, false, f)
 		walk(e.Left, e.Op == "=", f)
-- 
2.43.0


From 05f38a55abad0f8e1ad490d2e4f11b76f7e49185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:48 +0000
Subject: [PATCH 54/86] fix: accept the declarations of binary operators that
 save writes

---
 parse/function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index f488c32..deac830 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -67,7 +67,7 @@ func (p *Parser) functionDefn() {
 		if x.Name == fn.Name {
 			p.errorf("argument name %q is function name", fn.Name)
 		}
-		if argNames[x.Name] {
+		if argNames[x.Name] && x.Name != "_" { // Save declares ops as "op _ name _".
 			p.errorf("multiple arguments named %q", x.Name)
 		}
 		argNames[x.Name] = true
-- 
2.43.0


From d6af08665b45af08ca1d94b4bf12e4b8eeb54109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:37 +0000
Subject: [PATCH 55/86] fix: an operator defined on one line can use itself in
 each, reductions and products

---
 parse/function.go | 31 +++++++++++++++++++++++++++++++
 parse/parse.go    |  5 +++++
 scan/scan.go      | 23 ++++++++++++++++++++---
 3 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/parse/function.go b/parse/function.go
index deac830..6a77821 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -166,6 +166,37 @@ func (p *Parser) functionDefn() {
 	}
 }
 
+// opHeader reports the name and kind of the operator if the tokens are
+// those that precede the equals sign of an operator definition.
+func opHeader(tokens []scan.Token) (name string, isBinary, ok bool) {
+	if len(tokens) == 0 || tokens[0].Type != scan.Op {
+		return "", false, false
+	}
+	var args []scan.Token // The name or the left parenthesis of each argument.
+	depth := 0
+	for _, tok := range tokens[1:] {
+		if depth == 0 {
+			args = append(args, tok)
+		}
+		switch tok.Type {
+		case scan.Identifier:
+		case scan.LeftParen:
+			depth++
+		case scan.RightParen:
+			depth--
+		default:
+			return "", false, false
+		}
+	}
+	switch len(args) {
+	case 2:
+		return args[0].Text, false, args[0].Type == scan.Identifier
+	case 3:
+		return args[1].Text, true, args[1].Type == scan.Identifier
+	}
+	return "", false, false
+}
+
 // function argument
 //	name | '(' args ')'
 func (p *Parser) funcArg() value.Expr {
diff --git a/parse/parse.go b/parse/parse.go
index 827b126..18fe3f2 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -183,9 +183,14 @@ func (p *Parser) Line() ([]value.Expr, bool) {
 // for parsing, which we may use one day.
 func (p *Parser) readTokensToNewline(inFunction bool) bool {
 	p.tokens = p.tokenBuf[:0]
+	p.scanner.SetOp("", false)
 	for {
 		tok := p.scanner.Next()
 		switch tok.Type {
+		case scan.Assign:
+			if name, isBinary, ok := opHeader(p.tokens); ok {
+				p.scanner.SetOp(name, isBinary)
+			}
 		case scan.Error:
 			p.errorf("%s", tok)
 		case scan.Newline:
diff --git a/scan/scan.go b/scan/scan.go
index 7563958..48eeabb 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -82,6 +82,23 @@ type Scanner struct {
 	pos       int    // current position in the input
 	start     int    // start position of this item
 	token     Token
+	opName    string // operator whose body is on the line being scanned, if any
+	opBinary  bool   // that operator is binary
+}
+
+// SetOp tells the scanner that the rest of the line is the body of the operator,
+// which is not defined yet, so that uses of it such as name@ are recognized.
+// An empty name means there is no such operator.
+func (l *Scanner) SetOp(name string, isBinary bool) {
+	l.opName, l.opBinary = name, isBinary
+}
+
+// userDefined reports whether the word is a user-defined operator.
+func (l *Scanner) userDefined(word string, isBinary bool) bool {
+	if l.opName != "" && word == l.opName && isBinary == l.opBinary {
+		return true
+	}
+	return l.context.UserDefined(word, isBinary)
 }
 
 // loadLine reads the next line of input and stores it in (appends it to) the input.
@@ -368,7 +385,7 @@ func lexIdentifier(l *Scanner) stateFn {
 		l.pos = l.start
 		return lexComplex
 	}
-	if !l.context.UserDefined(word, false) {
+	if !l.userDefined(word, false) {
 		// Lexed word@ but word is not a unary operator; leave @ for next time.
 		l.pos -= eachRight
 	}
@@ -386,7 +403,7 @@ func lexOperator(l *Scanner) stateFn {
 	// It might be an inner product or reduction, but only if it is a binary operator.
 	word := l.input[l.start:l.pos]
 	w := strings.Trim(word, "@")
-	if word == "o" || value.BinaryOps[w] != nil || l.context.UserDefined(w, true) {
+	if word == "o" || value.BinaryOps[w] != nil || l.userDefined(w, true) {
 		switch l.peek() {
 		case '/', '\\':
 			// Reduction or scan.
@@ -760,5 +777,5 @@ func (l *Scanner) isOperatorToken(r rune) bool {
 
 // defined reports whether the argument has been defined as a variable or operator.
 func (l *Scanner) defined(word string) bool {
-	return exec.Predefined(word) || l.context.UserDefined(word, true)
+	return exec.Predefined(word) || l.userDefined(word, true)
 }
-- 
2.43.0


From c9a41c0605279e5baed0846270374977f7c0e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:37 +0000
Subject: [PATCH 56/86] fix: in base 10 and above the letter after the last
 digit is not a numeral

---
 scan/scan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scan/scan.go b/scan/scan.go
index 48eeabb..46caa67 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -688,10 +688,10 @@ func (l *Scanner) isNumeral(r rune) bool {
 		return false
 	}
 	top := rune(base - 10)
-	if 'a' <= r && r <= 'a'+top {
+	if 'a' <= r && r < 'a'+top {
 		return true
 	}
-	if 'A' <= r && r <= 'A'+top {
+	if 'A' <= r && r < 'A'+top {
 		return true
 	}
 	return false
-- 
2.43.0


From d1a6bee8742d6f017de157e329f550953b6ba147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:07 +0000
Subject: [PATCH 57/86] fix: a one-element matrix combined with a vector gives
 a vector, with a scalar a matrix

---
 value/eval.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/value/eval.go b/value/eval.go
index 1a53562..fb40d36 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -730,7 +730,9 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 	switch {
 	case isScalar(u):
 		// Scalar op Matrix.
-		shape = v.shape
+		if !isScalar(v) || v.Rank() > u.Rank() {
+			shape = v.shape
+		}
 		n = newVectorEditor(v.data.Len(), nil)
 		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
@@ -774,6 +776,10 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 			}
 		})
 	}
+	if len(shape) == 1 {
+		// A vector combined with a one-element matrix.
+		return n.Publish()
+	}
 	return NewMatrix(shape, n.Publish())
 }
 
-- 
2.43.0


From 47fe8ee0ba33989b956a1b58d26b3a89510138be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:17 +0000
Subject: [PATCH 58/86] fix: )get keeps the input and output bases set by the
 file

---
 parse/special.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse/special.go b/parse/special.go
index 57c9f13..b93de82 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -239,6 +239,14 @@ Switch:
 		} else {
 			p.runFromFile(p.context, p.getString())
 		}
+		// Keep the bases the file set, if any.
+		i, o := conf.Base()
+		if i != 0 {
+			ibase = i
+		}
+		if o != 0 {
+			obase = o
+		}
 	case "maxbits":
 		if p.peek().Type == scan.EOF {
 			p.Printf("%d\n", conf.MaxBits())
-- 
2.43.0


From b11dc9d6827278f93efcdb3d4132ef7989134d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 59/86] fix: save and )op write a declaration for an operator
 that is only declared

---
 exec/function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exec/function.go b/exec/function.go
index 394ada0..758b25f 100644
--- a/exec/function.go
+++ b/exec/function.go
@@ -54,6 +54,10 @@ func (fn *Function) String() string {
 	b.WriteString(fn.Name)
 	b.WriteRune(' ')
 	argProgString(&b, fn.Right)
+	if len(fn.Body) == 0 {
+		// Declared but not defined.
+		return b.String()
+	}
 	b.WriteString(" = ")
 	if len(fn.Body) == 1 {
 		b.WriteString(fn.Body[0].ProgString())
-- 
2.43.0


From 64e43ba0576186c5c95645d6572ab5ff09a8dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 60/86] fix: complex numbers in operator definitions are
 written as the literals they are

---
 value/complex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/complex.go b/value/complex.go
index 69486bb..deab0a4 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -47,7 +47,7 @@ func (c Complex) Sprint(conf *config.Config) string {
 }
 
 func (c Complex) ProgString() string {
-	return fmt.Sprintf("%sj%s", c.real, c.imag)
+	return fmt.Sprintf("%sj%s", c.real.ProgString(), c.imag.ProgString())
 }
 
 func (c Complex) Eval(Context) Value {
-- 
2.43.0


From 9b3335eba4ea475a744f90d827fd6acecd06c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:40 +0000
Subject: [PATCH 61/86] fix: definitions show an index of a constant in
 parentheses

---
 value/expr.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/value/expr.go b/value/expr.go
index 88a402b..70eaf64 100644
--- a/value/expr.go
+++ b/value/expr.go
@@ -227,7 +227,12 @@ func IsCompound(x interface{}) bool {
 	case VectorExpr:
 		return true
 	case *IndexExpr:
-		return IsCompound(x.Left)
+		// Only the index of a variable is part of a vector's element.
+		switch left := x.Left.(type) {
+		case *VarExpr, *IndexExpr:
+			return IsCompound(left)
+		}
+		return true
 	default:
 		return true
 	}
-- 
2.43.0


From d06fdbc20a376281eba5067bbdacbc83fd0a7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:00 +0000
Subject: [PATCH 62/86] fix: decoding a time without an offset uses the offset
 in effect at that time, not now

---
 value/sys.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index 7134629..0f88927 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -213,7 +213,7 @@ func decodeTime(c Context, u, v *Vector) Value {
 	}
 	year, month, day, hour, min := 0, 1, 1, 0, 0
 	sec, nsec := int64(0), int64(0)
-	loc := c.Config().Location()
+	var loc *time.Location // If nil, use the configured time zone.
 	toInt := func(v Value) int {
 		i, ok := v.(Int)
 		if ok {
@@ -270,7 +270,15 @@ func decodeTime(c Context, u, v *Vector) Value {
 	}
 	// time.Time values can only extract int64s for UnixNano, which limits the range too much.
 	// So we use UnixMilli, which spans a big enough range, and add the nanoseconds manually.
-	t := time.Date(year, time.Month(month), day, hour, min, int(sec), 0, loc)
+	date := func(loc *time.Location) time.Time {
+		return time.Date(year, time.Month(month), day, hour, min, int(sec), 0, loc)
+	}
+	if loc == nil {
+		// Find the offset in effect at that time, which may not be the offset now.
+		loc = c.Config().LocationAt(date(time.UTC))
+		loc = c.Config().LocationAt(date(loc))
+	}
+	t := date(loc)
 	t = t.In(c.Config().LocationAt(t))
 	var s, tmp big.Float
 	s.SetInt64(t.UnixMilli())
-- 
2.43.0


From 8d3fde7662fb20eea779f5d8271f3eee1abc6289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 63/86] fix: reject invalid UTF-8 in a string that also has an
 escape

---
 value/char.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/char.go b/value/char.go
index 873d849..c5309f8 100644
--- a/value/char.go
+++ b/value/char.go
@@ -72,7 +72,8 @@ func ParseString(s string) string {
 	if !ok {
 		Errorf("invalid string syntax")
 	}
-	if !utf8.ValidString(str) {
+	// Check the source too: unquoting an escape hides invalid bytes elsewhere.
+	if !utf8.ValidString(s) || !utf8.ValidString(str) {
 		Errorf("invalid code points in string")
 	}
 	return str
-- 
2.43.0


From ea8556e708a354c310444829b61c9066a6be1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:45 +0000
Subject: [PATCH 64/86] fix: floor, ceil and div of large floats respect
 maxbits

---
 value/eval.go  | 1 +
 value/unary.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index fb40d36..4e622f1 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -1013,6 +1013,7 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 			negY = true
 		}
 		quo := new(big.Float).Quo(x, y) // Precision is that of the operands.
+		mustFit(c.Config(), int64(quo.MantExp(nil)))
 		iquo, _ := quo.Int(nil)
 		// quo is the division, iquo is its integer truncation. Remainder is (quo-iquo)*y.
 		rem := quo.Sub(quo, new(big.Float).SetInt(iquo))
diff --git a/value/unary.go b/value/unary.go
index b4a862a..e63bc5c 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -565,6 +565,7 @@ func init() {
 					if f.Float.IsInf() {
 						Errorf("floor of %s", v.Sprint(c.Config()))
 					}
+					mustFit(c.Config(), int64(f.MantExp(nil)))
 					i, acc := f.Int(nil)
 					switch acc {
 					case big.Exact, big.Below:
@@ -612,6 +613,7 @@ func init() {
 					if f.Float.IsInf() {
 						Errorf("ceil of %s", v.Sprint(c.Config()))
 					}
+					mustFit(c.Config(), int64(f.MantExp(nil)))
 					i, acc := f.Int(nil)
 					switch acc {
 					case big.Exact, big.Above:
-- 
2.43.0


From bd6f178bf20eb40577939645c06a948d9f5a8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:28 +0000
Subject: [PATCH 65/86] fix: print an integer as float only if it has more than
 maxdigits digits

---
 value/bigint.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/value/bigint.go b/value/bigint.go
index dd96492..5d44990 100644
--- a/value/bigint.go
+++ b/value/bigint.go
@@ -41,11 +41,24 @@ func (i BigInt) String() string {
 	return "(" + i.Sprint(debugConf) + ")"
 }
 
+// tooLong reports whether the integer has more decimal digits than maxdigits allows.
+func (i BigInt) tooLong(conf *config.Config) bool {
+	max, bits := uint64(conf.MaxDigits()), uint64(i.BitLen())
+	// log 10 / log 2 is 3.32192809489
+	if max == 0 || bits <= max*33219/10000 {
+		return false
+	}
+	if bits > max*33220/10000+1 {
+		return true
+	}
+	// Too close to tell from the bits.
+	limit := new(big.Int).Exp(big.NewInt(10), new(big.Int).SetUint64(max), nil)
+	return i.CmpAbs(limit) >= 0
+}
+
 func (i BigInt) Sprint(conf *config.Config) string {
-	bitLen := i.BitLen()
 	format := conf.Format()
-	var maxBits = (uint64(conf.MaxDigits()) * 33222) / 10000 // log 10 / log 2 is 3.32192809489
-	if uint64(bitLen) > maxBits && maxBits != 0 {
+	if i.tooLong(conf) {
 		// Print in floating point.
 		return BigFloat{newF(conf).SetInt(i.Int)}.Sprint(conf)
 	}
-- 
2.43.0


From e46f62fba36659fbf6f1088bd5bb1c5c97b9dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:59 +0000
Subject: [PATCH 66/86] fix: a %.0g format shows one digit instead of crashing

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 7a020e7..3fc4a62 100644
--- a/config/config.go
+++ b/config/config.go
@@ -147,6 +147,9 @@ func (c *Config) SetFormat(s string) {
 			c.formatPrec = int(prec)
 		}
 	}
+	if c.formatPrec == 0 && (c.formatVerb == 'g' || c.formatVerb == 'G') {
+		c.formatPrec = 1 // As in Go.
+	}
 }
 
 // FloatFormat returns the parsed information about the format,
-- 
2.43.0


From 2375dcb67c5261ec29181d5f4fd8e8f2847bd474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 67/86] fix: %e of rationals that round up to the next power of
 ten, or are 10**-9, 10**-18, ...

---
 value/bigrat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/value/bigrat.go b/value/bigrat.go
index ef0c1be..23e5904 100644
--- a/value/bigrat.go
+++ b/value/bigrat.go
@@ -81,6 +81,10 @@ func (r BigRat) floatString(verb byte, prec int) string {
 		if str[0] == '0' {
 			str = str[2:]
 			exp--
+		} else if strings.HasPrefix(str, "10") {
+			// Rounding carried into a new digit.
+			str = "1" + zeros(prec)
+			exp++
 		} else if len(str) > 1 && str[1] == '.' {
 			str = str[0:1] + str[2:]
 		}
@@ -131,7 +135,7 @@ func ratExponent(x *big.Rat) int {
 		x.Inv(x)
 		e++
 	}
-	for x.Cmp(bigRatBillion) >= 0 {
+	for x.Cmp(bigRatBillion) > 0 {
 		e += 9
 		x.Quo(x, bigRatBillion)
 	}
-- 
2.43.0


From d2c276797477386412d8fe0012ead22298a5f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:34 +0000
Subject: [PATCH 68/86] fix: %g of small integers drops trailing zeros as it
 does for large ones

---
 value/int.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/int.go b/value/int.go
index 2c00a2f..788220e 100644
--- a/value/int.go
+++ b/value/int.go
@@ -81,7 +81,8 @@ func (i Int) floatString(verb byte, prec int) string {
 		// Exponent is always positive so it's easy.
 		if i.eExponent() >= prec {
 			// Use e format.
-			return i.floatString(verb-2, prec-1)
+			verb -= 2 // g becomes e.
+			return trimEZeros(verb, i.floatString(verb, prec-1))
 		}
 		// Use f format, but this is just an integer.
 		return fmt.Sprintf("%d", int64(i))
-- 
2.43.0


From 7a8c3167a2239c32390f75edf5210a4adcb78fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 69/86] fix: print accepts a complex number

---
 value/unary.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/value/unary.go b/value/unary.go
index e63bc5c..8dff7a3 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -841,6 +841,7 @@ func init() {
 				bigIntType:   printValue,
 				bigRatType:   printValue,
 				bigFloatType: printValue,
+				complexType:  printValue,
 				vectorType:   printValue,
 				matrixType:   printValue,
 			},
-- 
2.43.0


From 72062ed3b7b0720b06bf4e4deae195b8bad938f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 70/86] fix: a reduction by @ alone is an error, not a crash

---
 value/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index 4e622f1..c75211c 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -597,6 +597,9 @@ func eachValue(v Value, dim int) iter.Seq[Value] {
 // applying the "each" expansion depending on how many times
 // @ appears on the left and right ends of op.
 func BinaryEach(c Context, lv Value, op string, rv Value) Value {
+	if strings.Trim(op, "@") == "" {
+		Errorf("%s: no operator for each", op)
+	}
 	// Count as many @s as possible for the left side.
 	// Must strip at least one if present, but don't have to strip all,
 	// in case we are doing @ of vector of vectors.
-- 
2.43.0


From b87dbba7fb4e7137e1a790b9d97140913dbfd842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:31 +0000
Subject: [PATCH 71/86] fix: log of an integer dropped the remainder when
 splitting off powers of the base

8 log 10000000 divided 156250 by 8 and lost the remainder.
---
 value/log.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/log.go b/value/log.go
index ea9fd7c..a458b6e 100644
--- a/value/log.go
+++ b/value/log.go
@@ -73,7 +73,7 @@ func uint64Log(b, v uint64) (i, r uint64) {
 		i, v = uint64Log(b*b, v)
 		i <<= 1
 	}
-	if v >= b {
+	if v >= b && v%b == 0 {
 		v /= b
 		i |= 1
 	}
@@ -97,8 +97,8 @@ func bigIntLog(b, v BigInt) (i Int, r BigInt) {
 		i, v = bigIntLog(BigInt{new(big.Int).Mul(b.Int, b.Int)}, v)
 		i <<= 1
 	}
-	if v.Cmp(b.Int) >= 0 {
-		v = BigInt{new(big.Int).Div(v.Int, b.Int)}
+	if q, r := new(big.Int).QuoRem(v.Int, b.Int, new(big.Int)); r.Sign() == 0 {
+		v = BigInt{q}
 		i |= 1
 	}
 	return i, v
-- 
2.43.0


From 3b5da401990035b1e94daa8f30edb4c76afea65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:05 +0000
Subject: [PATCH 72/86] fix: Config.Origin is 1 before anything else has
 initialized the configuration

The configuration used to print values in error messages labelled the planes of a
matrix from 0 or from 1 according to what had been printed before.
---
 config/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/config.go b/config/config.go
index 3fc4a62..08c72c9 100644
--- a/config/config.go
+++ b/config/config.go
@@ -192,11 +192,13 @@ func (c *Config) SetDebug(flag string, state int) bool {
 
 // Origin returns the index origin, default 1.
 func (c *Config) Origin() int {
+	c.init()
 	return c.origin
 }
 
 // BigOrigin returns the index origin as a *big.Int.
 func (c *Config) BigOrigin() *big.Int {
+	c.init()
 	return c.bigOrigin
 }
 
-- 
2.43.0


From 53e4c9b02eded30e5f078f331a24b03e3a5352ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:53 +0000
Subject: [PATCH 73/86] fix: text with %% before the verb in its format took
 the wrong verb

"%%%d" text 7/2 printed the address of a pointer.
---
 value/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/format.go b/value/format.go
index 4dd35f0..c3b62a1 100644
--- a/value/format.go
+++ b/value/format.go
@@ -133,7 +133,8 @@ Loop:
 			continue
 		// Special case for %%: go on to next verb.
 		case '%':
-			return verbIndex(s[i+1:])
+			start := percent + 1 + i + 1
+			return start + verbIndex(format[start:])
 		case 'b', 'c', 'd', 'e', 'E', 'f', 'F', 'g', 'G', 'o', 'O', 'q', 's', 't', 'T', 'U', 'v', 'x', 'X':
 			return percent + 1 + i
 		default:
-- 
2.43.0


From 13999fedbe20090d17738f6b05dc2a6f46340cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:27 +0000
Subject: [PATCH 74/86] fix: complex asin, asinh and acosh lost all accuracy
 for large arguments in half the plane

asin -1e50, asin 1e50j1, asinh -1e50j1 and acosh -1e50 failed with 'log of
non-positive value', and smaller arguments lost digits.
---
 value/asin.go  | 4 ++++
 value/asinh.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/value/asin.go b/value/asin.go
index c0b8ec0..9d9d53f 100644
--- a/value/asin.go
+++ b/value/asin.go
@@ -186,6 +186,10 @@ func floatAtanLarge(c Context, x *big.Float) *big.Float {
 }
 
 func complexAsin(c Context, v Complex) Complex {
+	// asin is odd. Choose the sign for which the addition below does not cancel.
+	if compare(v.imag, 0) > 0 || isZero(v.imag) && isNegative(v.real) {
+		return complexAsin(c, v.neg(c)).neg(c)
+	}
 	// Use the formula: asin(v) = -i * log(sqrt(1-v²) + i*v)
 	x := NewComplex(one, zero)
 	x = complexSqrt(c, x.sub(c, v.mul(c, v)))
diff --git a/value/asinh.go b/value/asinh.go
index 68c028f..d652349 100644
--- a/value/asinh.go
+++ b/value/asinh.go
@@ -88,6 +88,10 @@ func floatAtanh(c Context, x *big.Float) *big.Float {
 
 // complexAsinh computes asinh(x) using the formula asinh(x) = log(x + sqrt(x²+1)).
 func complexAsinh(c Context, x Complex) Complex {
+	// asinh is odd. Choose the sign for which the addition below does not cancel.
+	if isNegative(x.real) || isZero(x.real) && isNegative(x.imag) {
+		return complexAsinh(c, x.neg(c)).neg(c)
+	}
 	z := x.mul(c, x)
 	z = z.add(c, NewComplex(one, zero))
 	z = complexSqrt(c, z)
@@ -100,6 +104,10 @@ func complexAcosh(c Context, x Complex) Complex {
 	z := x.mul(c, x)
 	z = z.sub(c, NewComplex(one, zero))
 	z = complexSqrt(c, z)
+	if isNegative(x.real) || isZero(x.real) && isNegative(x.imag) {
+		// The addition would cancel, but x+z is 1/(x-z).
+		return complexLog(c, x.sub(c, z).inverse(c))
+	}
 	z = z.add(c, x)
 	return complexLog(c, z)
 }
-- 
2.43.0


From 748a96668db90d39b8dd0f761fa9741947d060ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:07 +0000
Subject: [PATCH 75/86] fix: asinh and atanh of small arguments lost accuracy

asinh 1e-70 was 9.99999920225e-71, asinh 1e-100 was 0.
---
 value/asinh.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/value/asinh.go b/value/asinh.go
index d652349..1ed22dd 100644
--- a/value/asinh.go
+++ b/value/asinh.go
@@ -56,6 +56,10 @@ func floatAsinh(c Context, x *big.Float) *big.Float {
 	z.Mul(z, x)
 	z.Add(z, floatOne)
 	z = floatSqrt(c, z)
+	if x.Cmp(floatHalf) < 0 {
+		// The argument of log is near 1, where accuracy is lost.
+		return floatAtanh(c, z.Quo(x, z))
+	}
 	z.Add(z, x)
 	return floatLog(c, z)
 }
@@ -80,6 +84,23 @@ func floatAtanh(c Context, x *big.Float) *big.Float {
 	if x.Cmp(floatMinusOne) <= 0 || 0 <= x.Cmp(floatOne) {
 		Errorf("real atanh out of range (-1, 1)")
 	}
+	if x.MantExp(nil) < 0 {
+		// |x| < ½: the argument of log is near 1, where accuracy is lost.
+		// Use the Maclaurin series x + x³/3 + x⁵/5 ...
+		z := newFloat(c)
+		xN := newFloat(c).Set(x)
+		xSquared := newFloat(c).Mul(x, x)
+		term := newFloat(c)
+		n := newFloat(c)
+		for loop := newLoop(c.Config(), "atanh", x, 4); ; {
+			z.Add(z, term.Quo(xN, n.SetUint64(2*loop.i+1)))
+			if loop.done(z) {
+				break
+			}
+			xN.Mul(xN, xSquared)
+		}
+		return z
+	}
 	num := newFloat(c).Add(floatOne, x)
 	den := newFloat(c).Sub(floatOne, x)
 	z := floatLog(c, newFloat(c).Quo(num, den))
-- 
2.43.0


From 1f35429b384c95736364aeb3c188470a1209f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:15 +0000
Subject: [PATCH 76/86] fix: tracing every operator prints its lines in order

With )debug trace 2 the operators evaluated in parallel wrote their trace
lines concurrently, in an order that varied and with a data race on the
session's output. Evaluate sequentially while tracing.
---
 value/binary.go | 6 +++---
 value/eval.go   | 6 ++++--
 value/vector.go | 2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index 9a4cf3a..dd03dfb 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1015,7 +1015,7 @@ func init() {
 					if B.shape[0] > n {
 						n = B.shape[0]
 					}
-					pfor(true, n, elems.Len(), func(lo, hi int) {
+					pfor(!c.Config().Tracing(2), n, elems.Len(), func(lo, hi int) {
 						for j := lo; j < hi; j++ {
 							result := Value(zero)
 							prod := Value(one)
@@ -1162,7 +1162,7 @@ func init() {
 					})
 					indices := newVectorEditor(B.Len(), nil)
 					work := 2 * (1 + int(math.Log2(float64(A.Len()))))
-					pfor(true, work, B.Len(), func(lo, hi int) {
+					pfor(!c.Config().Tracing(2), work, B.Len(), func(lo, hi int) {
 						for i := lo; i < hi; i++ {
 							b := B.At(i)
 							indices.Set(i, Int(origin-1))
@@ -1190,7 +1190,7 @@ func init() {
 					}
 					n := A.ElemSize() // elements in each comparison
 					indices := newVectorEditor(size(shape), nil)
-					pfor(true, n, indices.Len(), func(lo, hi int) {
+					pfor(!c.Config().Tracing(2), n, indices.Len(), func(lo, hi int) {
 						for i := lo; i < hi; i++ {
 							indices.Set(i, Int(origin-1))
 							for j := range A.shape[0] {
diff --git a/value/eval.go b/value/eval.go
index c75211c..1b48316 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -172,7 +172,8 @@ func safeBinary(c Context, op string) bool {
 	// ? uses the random number generator,
 	// which maintains global state.
 	// User-defined operators use the stack and may have side effects.
-	return BinaryOps[op] != nil && op != "?" && !c.UserDefined(op, true)
+	// A trace must be printed in order.
+	return BinaryOps[op] != nil && op != "?" && !c.UserDefined(op, true) && !c.Config().Tracing(2)
 }
 
 // safeUnary reports whether the unary operator op is safe to parallelize.
@@ -180,7 +181,8 @@ func safeUnary(c Context, op string) bool {
 	// ? and rand use the random number generator,
 	// which maintains global state.
 	// User-defined operators use the stack and may have side effects.
-	return UnaryOps[op] != nil && op != "?" && op != "rand" && !c.UserDefined(op, false)
+	// A trace must be printed in order.
+	return UnaryOps[op] != nil && op != "?" && op != "rand" && !c.UserDefined(op, false) && !c.Config().Tracing(2)
 }
 
 // knownAssoc reports whether the binary op is known to be associative.
diff --git a/value/vector.go b/value/vector.go
index 5f0fbf7..2f10d2f 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -593,7 +593,7 @@ func membership(c Context, u, v *Vector) *Vector {
 	values := newVectorEditor(u.Len(), nil)
 	sortedV := v.sortedCopy(c)
 	work := 2 * (1 + int(math.Log2(float64(v.Len()))))
-	pfor(true, work, values.Len(), func(lo, hi int) {
+	pfor(!c.Config().Tracing(2), work, values.Len(), func(lo, hi int) {
 		for i := lo; i < hi; i++ {
 			values.Set(i, toInt(sortedV.contains(c, u.At(i))))
 		}
-- 
2.43.0


From 759940cf23aeaaef58d0f3f9b6df5ab4a31496f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:42 +0000
Subject: [PATCH 77/86] fix: mod and encode of an infinity are errors, not a
 crash

---
 value/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index 1b48316..a7d130a 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -1007,6 +1007,9 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 	case bigFloatType:
 		x := a.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		y := b.toType(op, c.Config(), bigFloatType).(BigFloat).Float
+		if x.IsInf() {
+			Errorf("%s of infinity", op)
+		}
 		if x.Sign() < 0 {
 			x = new(big.Float).Copy(x)
 			x.Neg(x)
-- 
2.43.0


From 92bd79e7e5e21f864623a0f9ea838ec5efb15105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:55 +0000
Subject: [PATCH 78/86] fix: text with an integer format of an infinity is an
 error

---
 value/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/format.go b/value/format.go
index c3b62a1..cca2b40 100644
--- a/value/format.go
+++ b/value/format.go
@@ -221,6 +221,9 @@ func formatOne(c Context, w io.Writer, format string, verb byte, v Value) {
 			case 'X':
 				Errorf("%%X not implemented for float: %v", val)
 			}
+			if val.IsInf() {
+				Errorf("%%%c not implemented for infinity", verb)
+			}
 			i, _ := val.Int(big.NewInt(0)) // TODO: Truncates towards zero. Do rounding?
 			fmt.Fprintf(w, format, i)
 		case Complex:
-- 
2.43.0


From 04f1f54c9545cdab428e6e1926e9d147e66cedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:16 +0000
Subject: [PATCH 79/86] fix: sin, cos and tan end at every precision

---
 value/sin.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/value/sin.go b/value/sin.go
index 4217f9a..a5b0058 100644
--- a/value/sin.go
+++ b/value/sin.go
@@ -135,28 +135,17 @@ func twoPiReduce(c Context, x *big.Float) {
 	// TODO: Is there an easy better algorithm?
 	twoPi := newFloat(c).Set(floatTwo)
 	twoPi.Mul(twoPi, floatPi)
-	// Do something clever(er) if it's large.
-	if x.Cmp(newFloat(c).SetInt64(1000)) > 0 {
-		multiples := make([]*big.Float, 0, 100)
-		sixteen := newFloat(c).SetInt64(16)
-		multiple := newFloat(c).Set(twoPi)
-		for {
-			multiple.Mul(multiple, sixteen)
-			if x.Cmp(multiple) < 0 {
-				break
-			}
-			multiples = append(multiples, newFloat(c).Set(multiple))
+	// Subtract multiples by powers of two, the biggest first. Then each subtraction
+	// is exact, so it makes progress whatever the precision.
+	multiple := newFloat(c).Set(twoPi)
+	for x.Cmp(multiple) >= 0 {
+		multiple.Mul(multiple, floatTwo)
+	}
+	for multiple.Cmp(twoPi) > 0 {
+		multiple.Quo(multiple, floatTwo)
+		if x.Cmp(multiple) >= 0 {
+			x.Sub(x, multiple)
 		}
-		// From the right, subtract big multiples.
-		for i := len(multiples) - 1; i >= 0; i-- {
-			multiple := multiples[i]
-			for x.Cmp(multiple) >= 0 {
-				x.Sub(x, multiple)
-			}
-		}
-	}
-	for x.Cmp(twoPi) >= 0 {
-		x.Sub(x, twoPi)
 	}
 }
 
-- 
2.43.0


From 21766c0ed1a8cd11c6c738b51be253b5bcf6e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:45 +0000
Subject: [PATCH 80/86] fix: text that evaluates itself with ivy is an error,
 not a crash

---
 exec/context.go | 16 ++++++++++++++++
 run/run.go      |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/exec/context.go b/exec/context.go
index e56d25e..2fd63e7 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -25,6 +25,8 @@ type Context struct {
 	frameSizes []int // size of each stack frame on the call stack
 	stack      []*value.Var
 
+	evalDepth uint // number of ivy operators being evaluated
+
 	Globals Symtab
 
 	//  UnaryFn maps the names of unary functions (ops) to their implementations.
@@ -111,6 +113,20 @@ func (c *Context) pop() {
 	c.stack = c.stack[:len(c.stack)-n]
 }
 
+// PushEval notes that the ivy operator is starting to evaluate text, which may
+// itself use the ivy operator. The nesting is limited like that of calls.
+func (c *Context) PushEval() {
+	if c.evalDepth >= c.config.MaxStack() {
+		value.Errorf("stack overflow in ivy operator")
+	}
+	c.evalDepth++
+}
+
+// PopEval undoes PushEval.
+func (c *Context) PopEval() {
+	c.evalDepth--
+}
+
 var indent = "| "
 
 // TraceIndent returns an indentation marker showing the depth of the stack.
diff --git a/run/run.go b/run/run.go
index cc63561..d05a433 100644
--- a/run/run.go
+++ b/run/run.go
@@ -16,6 +16,7 @@ import (
 	"time"
 
 	"robpike.io/ivy/config"
+	"robpike.io/ivy/exec"
 	"robpike.io/ivy/parse"
 	"robpike.io/ivy/scan"
 	"robpike.io/ivy/value"
@@ -28,6 +29,9 @@ func init() {
 // IvyEval is the function called by value/unaryIvy to implement the ivy (eval) operation.
 // It is exported but is not intended to be used outside of ivy.
 func IvyEval(context value.Context, str string) value.Value {
+	c := context.(*exec.Context) // It's known to be one.
+	c.PushEval()
+	defer c.PopEval()
 	scanner := scan.New(context, "<ivy>", strings.NewReader(str))
 	parser := parse.NewParser("<ivy>", scanner, context)
 	v := eval(parser, context)
-- 
2.43.0


From de3baa50f4014513e3415ab79a241031586fcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:00 +0000
Subject: [PATCH 81/86] fix: an expression nested too deeply is an error, not a
 crash

---
 parse/parse.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 18fe3f2..a157309 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -81,8 +81,13 @@ type Parser struct {
 	fileName string
 	lineNum  int
 	context  *exec.Context
+	depth    int // Nesting of the expression being parsed.
 }
 
+// maxDepth is the maximum nesting of an expression. It keeps the recursion of
+// the parser and the evaluator well within the Go stack.
+const maxDepth = 200_000
+
 // NewParser returns a new parser that will read from the scanner.
 // The context must have been created by this package's NewContext function.
 func NewParser(fileName string, scanner *scan.Scanner, context value.Context) *Parser {
@@ -109,8 +114,13 @@ func (p *Parser) next() scan.Token {
 		p.tokens = p.tokens[1:]
 		p.lineNum = tok.Line // This gives us the line number before the newline.
 	}
-	if tok.Type == scan.Error {
+	switch tok.Type {
+	case scan.Error:
 		p.errorf("%s", tok)
+	case scan.Operator, scan.Identifier:
+		if len(tok.Text) > maxDepth { // Each @ of an operator is a level of nesting.
+			p.errorf("name or operator too long")
+		}
 	}
 	return tok
 }
@@ -264,6 +274,11 @@ func (p *Parser) statementList() ([]value.Expr, bool) {
 //	operand
 //	operand binop expr
 func (p *Parser) expr() value.Expr {
+	if p.depth >= maxDepth {
+		p.errorf("expression nested too deeply")
+	}
+	p.depth++
+	defer func() { p.depth-- }()
 	tok := p.next()
 	expr := p.operand(tok, true)
 	tok = p.peek()
@@ -371,7 +386,10 @@ func (p *Parser) operand(tok scan.Token, indexOK bool) value.Expr {
 //	expr [ expr ]
 //	expr [ expr ] [ expr ] ....
 func (p *Parser) index(expr value.Expr) value.Expr {
-	for p.peek().Type == scan.LeftBrack {
+	for n := p.depth; p.peek().Type == scan.LeftBrack; n++ {
+		if n >= maxDepth {
+			p.errorf("expression nested too deeply")
+		}
 		p.next()
 		list := p.indexList()
 		tok := p.next()
-- 
2.43.0


From a0715ed8d447e5f11a55b27da3574b3fe96122ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:24 +0000
Subject: [PATCH 82/86] fix: running the demo several times crashed

---
 exec/context.go  |  2 ++
 parse/special.go | 14 ++++++--------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/exec/context.go b/exec/context.go
index 2fd63e7..fa7ffc4 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -27,6 +27,8 @@ type Context struct {
 
 	evalDepth uint // number of ivy operators being evaluated
 
+	RunDepth int // nesting of files being run by )get
+
 	Globals Symtab
 
 	//  UnaryFn maps the names of unary functions (ops) to their implementations.
diff --git a/parse/special.go b/parse/special.go
index b93de82..52c14c1 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -409,8 +409,6 @@ func (p *Parser) getString() string {
 	return value.ParseString(p.need(scan.String).Text)
 }
 
-var runDepth = 0
-
 // runFromFile executes the contents of the named file.
 func (p *Parser) runFromFile(context value.Context, name string) {
 	fd, err := os.Open(name)
@@ -422,12 +420,12 @@ func (p *Parser) runFromFile(context value.Context, name string) {
 
 // runFromReader executes the contents of the io.Reader, identified by name.
 func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) {
-	if runDepth >= 10 {
+	if p.context.RunDepth >= 10 {
 		p.errorf("invocations of %q nested too deep", name)
 	}
-	runDepth++
+	p.context.RunDepth++
 	defer func() {
-		runDepth--
+		p.context.RunDepth--
 		err := recover()
 		if err == nil {
 			return
@@ -448,12 +446,12 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 }
 
 func (p *Parser) runUntilError(name string) error {
-	if runDepth >= 10 {
+	if p.context.RunDepth >= 10 {
 		p.errorf("get %q nested too deep", name)
 	}
-	runDepth++
+	p.context.RunDepth++
 	defer func() {
-		runDepth--
+		p.context.RunDepth--
 		err := recover()
 		if err == nil {
 			return
-- 
2.43.0


From 4371a8679e4d2c0308619ce44ff8cbc7e101cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:59 +0000
Subject: [PATCH 83/86] fix: a floating-point error in the demo crashed, and
 one in a file lost its location

---
 parse/special.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 52c14c1..674d63c 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -10,6 +10,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math/big"
 	"os"
 	"sort"
 	"strings"
@@ -430,7 +431,8 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 		if err == nil {
 			return
 		}
-		if err, ok := err.(value.Error); ok {
+		switch err.(type) {
+		case value.Error, big.ErrNaN: // ErrNaN is a floating point error from math/big.
 			fmt.Fprintf(p.context.Config().ErrOutput(), "%s%s\n", p.Loc(), err)
 			return
 		}
@@ -456,7 +458,8 @@ func (p *Parser) runUntilError(name string) error {
 		if err == nil {
 			return
 		}
-		if err, ok := err.(value.Error); ok {
+		switch err.(type) {
+		case value.Error, big.ErrNaN: // ErrNaN is a floating point error from math/big.
 			fmt.Fprintf(p.context.Config().ErrOutput(), "%s%s\n", p.Loc(), err)
 			return
 		}
-- 
2.43.0


From facd0a5a9d737ce9fe1fe4959fe888b5bb093b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 84/86] fix: save reports an error writing the file

---
 parse/save.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index 1cd30a5..1916ab7 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -64,9 +64,16 @@ func save(c *exec.Context, file string) {
 		if err != nil {
 			value.Errorf("%s", err)
 		}
-		defer fd.Close()
 		buf := bufio.NewWriter(fd)
-		defer buf.Flush()
+		defer func() {
+			err := buf.Flush()
+			if closeErr := fd.Close(); err == nil {
+				err = closeErr
+			}
+			if err != nil {
+				value.Errorf("%s", err)
+			}
+		}()
 		out = buf
 	}
 
-- 
2.43.0


From 45bbadf6b0739ec4c6dfa672b7ddd9b7451b6a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 85/86] fix: get closes the file

---
 parse/special.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/special.go b/parse/special.go
index 674d63c..a00925a 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -416,6 +416,7 @@ func (p *Parser) runFromFile(context value.Context, name string) {
 	if err != nil {
 		p.errorf("%s", err)
 	}
+	defer fd.Close()
 	p.runFromReader(context, name, fd, true)
 }
 
-- 
2.43.0


From 2fbbb60353199c58bc70600dea4cdd7ee07e4d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:54 +0000
Subject: [PATCH 86/86] fix: an error reading the input was taken for its end

---
 scan/scan.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scan/scan.go b/scan/scan.go
index 46caa67..e06797b 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -72,6 +72,7 @@ type Scanner struct {
 	context   value.Context
 	r         io.ByteReader
 	done      bool
+	readErr   error  // error reading the input, to be reported at its end
 	name      string // the name of the input; used only for error reports
 	buf       []byte // I/O buffer, re-used.
 	input     string // the line of text being scanned.
@@ -109,6 +110,9 @@ func (l *Scanner) loadLine() {
 	for {
 		c, err := l.r.ReadByte()
 		if err != nil {
+			if err != io.EOF {
+				l.readErr = err
+			}
 			l.done = true
 			break
 		}
@@ -248,6 +252,10 @@ func (l *Scanner) Next() Token {
 	for {
 		state = state(l)
 		if state == nil {
+			if l.token.Type == EOF && l.readErr != nil {
+				l.errorf("%s", l.readErr)
+				l.readErr = nil
+			}
 			return l.token
 		}
 	}
-- 
2.43.0

