From 8ea3f85a960dd2ab80ba150cb6a8247b0c435aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 01/85] fix: shrink results of max and 0**n, 1**n on big
 integers

The result kept the big representation of a small integer, so it
could not be used as an index or a count.
---
 value/binary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index e0f578d..bc8c429 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -450,7 +450,7 @@ func init() {
 					}
 					x := u.(BigInt).Int
 					if x.Cmp(bigIntOne.Int) == 0 || x.Sign() == 0 {
-						return u
+						return u.shrink()
 					}
 					return binaryBigIntOp(u, bigIntExpOp(c), v)
 				},
@@ -1260,9 +1260,9 @@ func init() {
 				bigIntType: func(c Context, u, v Value) Value {
 					i, j := u.(BigInt), v.(BigInt)
 					if i.Cmp(j.Int) > 0 {
-						return u
+						return i.shrink()
 					}
-					return v
+					return j.shrink()
 				},
 				bigRatType: func(c Context, u, v Value) Value {
 					i, j := u.(BigRat), v.(BigRat)
-- 
2.43.0


From 4ad2e17863a64988c10df316b08d7d50e4d11989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:15 +0000
Subject: [PATCH 02/85] fix: negating the smallest int must yield a big int

-, abs, idiv and Euclidean division returned 2147483648 as an Int, which
is out of range for that type; further operations could then overflow:
	x = (-2147483648 idiv -1) | 2147483647
	x*x
gave -8589934591.
---
 value/binary.go | 2 +-
 value/eval.go   | 2 +-
 value/unary.go  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index bc8c429..e93e7d9 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -337,7 +337,7 @@ func init() {
 					if v.(Int) == 0 {
 						Errorf("division by zero")
 					}
-					return u.(Int) / v.(Int)
+					return (u.(Int) / v.(Int)).maybeBig()
 				},
 				bigIntType: func(c Context, u, v Value) Value {
 					if v.(BigInt).Sign() == 0 {
diff --git a/value/eval.go b/value/eval.go
index ee1fbc8..3812495 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -944,7 +944,7 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		if negX != negY {
 			quo = -quo
 		}
-		return Int(quo), Int(rem)
+		return Int(quo).maybeBig(), Int(rem)
 	case bigIntType:
 		x := a.toType(op, c.Config(), bigIntType).(BigInt)
 		y := b.toType(op, c.Config(), bigIntType).(BigInt)
diff --git a/value/unary.go b/value/unary.go
index acc6ca4..ba6b5c5 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -289,7 +289,7 @@ func init() {
 			elementwise: true,
 			fn: [numType]unaryFn{
 				intType: func(c Context, v Value) Value {
-					return -v.(Int)
+					return (-v.(Int)).maybeBig()
 				},
 				bigIntType: func(c Context, v Value) Value {
 					return unaryBigIntOp(c, bigIntWrap((*big.Int).Neg), v)
@@ -469,7 +469,7 @@ func init() {
 					if i < 0 {
 						i = -i
 					}
-					return i
+					return i.maybeBig()
 				},
 				bigIntType: func(c Context, v Value) Value {
 					return unaryBigIntOp(c, bigIntWrap((*big.Int).Abs), v)
-- 
2.43.0


From 82219614633e2bbbd6f948701a32831d9fcc7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:57 +0000
Subject: [PATCH 03/85] fix: mod and encode must not negate their operands in
 place

QuoRem meant to copy a negative rational or float before negating it but
x.Set(x) is not a copy, so the operand itself, perhaps a variable or a
constant in the program, changed sign:
	x = -7/3
	x mod 2
	x
printed 7/3.
---
 value/eval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 3812495..9bde422 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -957,12 +957,12 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		y := b.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		if x.Sign() < 0 {
-			x = x.Set(x) // Copy x.
+			x = new(big.Rat).Set(x) // Copy x.
 			x.Neg(x)
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Set(y) // Copy y.
+			y = new(big.Rat).Set(y) // Copy y.
 			y.Neg(y)
 			negY = true
 		}
@@ -984,12 +984,12 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		y := b.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		if x.Sign() < 0 {
-			x = x.Copy(x)
+			x = new(big.Float).Copy(x)
 			x.Neg(x)
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Copy(y)
+			y = new(big.Float).Copy(y)
 			y.Neg(y)
 			negY = true
 		}
-- 
2.43.0


From 07c9ba4208bd16ebb917aea565d378b62ac05215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:57 +0000
Subject: [PATCH 04/85] fix: compute floating-point mod at the configured
 precision

big.NewFloat(0) has 53 bits of precision, so the quotient and remainder
were rounded to float64: (pi*10**20) mod 1 was 0.
---
 value/eval.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 9bde422..d719c29 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -993,11 +993,18 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 			y.Neg(y)
 			negY = true
 		}
-		quo := big.NewFloat(0).Quo(x, y)
-		iquo, _ := quo.Int(nil)
-		// quo is the division, iquo is its integer truncation. Remainder is (quo-iquo)*y.
-		rem := quo.Sub(quo, big.NewFloat(0).SetInt(iquo))
+		// iquo is the integer truncation of the division, computed with enough
+		// precision to represent all of it. Remainder is x-iquo*y, computed exactly.
+		quoBits := max(x.MantExp(nil)-y.MantExp(nil)+64, int(c.Config().FloatPrec()))
+		iquo, _ := new(big.Float).SetPrec(uint(quoBits)).Quo(x, y).Int(nil)
+		prec := max(x.Prec(), y.Prec()+uint(iquo.BitLen())) + 2
+		rem := new(big.Float).SetPrec(prec).SetInt(iquo)
 		rem.Mul(rem, y)
+		rem.Sub(x, rem)
+		if rem.Sign() < 0 { // The division rounded up to an integer.
+			rem.Add(rem, y)
+			iquo.Sub(iquo, bigIntOne.Int)
+		}
 		if negX && rem.Sign() != 0 {
 			rem.Sub(y, rem)
 			iquo.Add(iquo, bigIntOne.Int)
@@ -1005,7 +1012,7 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		if negX != negY {
 			iquo.Neg(iquo)
 		}
-		return BigInt{iquo}.shrink(), BigFloat{rem}.shrink()
+		return BigInt{iquo}.shrink(), BigFloat{newFloat(c).Set(rem)}.shrink()
 	default:
 		Errorf("%s undefined for type %s", op, typ)
 	}
-- 
2.43.0


From 21863f8f9b1a7701b666f59ee6ea2cd4797b672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:50 +0000
Subject: [PATCH 05/85] fix: rot, flip and transp of empty matrices must not
 hang or crash

---
 value/matrix.go | 9 +++++++++
 value/unary.go  | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/value/matrix.go b/value/matrix.go
index 63fc2e6..011c4a9 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -454,6 +454,9 @@ func (m *Matrix) rotate(n int) Value {
 	if m.Rank() == 0 {
 		return &Matrix{}
 	}
+	if m.data.Len() == 0 {
+		return m
+	}
 	elems := newVectorEditor(m.data.Len(), nil)
 	dim := m.shape[m.Rank()-1]
 	n %= dim
@@ -479,6 +482,9 @@ func (m *Matrix) vrotate(n int) Value {
 		return m
 	}
 
+	if m.data.Len() == 0 {
+		return m
+	}
 	elems := newVectorEditor(m.data.Len(), nil)
 	dim := m.data.Len() / m.shape[0]
 
@@ -508,6 +514,9 @@ func (m *Matrix) transpose(c Context) *Matrix {
 		data := newVectorEditor(m.data.Len(), nil)
 		xdim, ydim := m.shape[0], m.shape[1] // For new matrix.
 		pfor(true, 1, data.Len(), func(lo, hi int) {
+			if lo == hi {
+				return
+			}
 			nx := lo / ydim
 			ny := lo % ydim
 			for _, v := range m.data.Slice(lo, hi) {
diff --git a/value/unary.go b/value/unary.go
index ba6b5c5..7d22aa7 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -909,6 +909,9 @@ func init() {
 						Errorf("rot: matrix is vector")
 					}
 					size := int(m.Size())
+					if size == 0 {
+						return m
+					}
 					ncols := m.shape[m.Rank()-1]
 					x := m.data.edit()
 					for index := 0; index <= size-ncols; index += ncols {
-- 
2.43.0


From dc419c3d42ac96d5f9f47b3d42101d97c0153773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 06/85] fix: rational and complex scalars extend to matrices
 like other scalars

---
 value/bigrat.go  | 2 +-
 value/complex.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/bigrat.go b/value/bigrat.go
index 76fe665..ef0c1be 100644
--- a/value/bigrat.go
+++ b/value/bigrat.go
@@ -193,7 +193,7 @@ func (r BigRat) toType(op string, conf *config.Config, which valueType) Value {
 	case vectorType:
 		return oneElemVector(r)
 	case matrixType:
-		return NewMatrix([]int{1, 1}, NewVector(r))
+		return NewMatrix([]int{1}, NewVector(r))
 	}
 	Errorf("%s: cannot convert rational to %s", op, which)
 	return nil
diff --git a/value/complex.go b/value/complex.go
index 3197751..6b8da09 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -76,7 +76,7 @@ func (c Complex) toType(op string, conf *config.Config, which valueType) Value {
 	case vectorType:
 		return oneElemVector(c)
 	case matrixType:
-		return NewMatrix([]int{1, 1}, NewVector(c))
+		return NewMatrix([]int{1}, NewVector(c))
 	}
 	Errorf("%s: cannot convert complex to %s", op, which)
 	return nil
-- 
2.43.0


From c4ad060a494ecdab49e7ae93aaaabd31676f98c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 07/85] fix: catenating to a matrix with no rows must not
 divide by zero

---
 value/matrix.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index 011c4a9..5ef17a6 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -667,16 +667,14 @@ func (x *Matrix) catenate(y *Matrix) *Matrix {
 		setShape(x, 1)
 		data.Resize(x.data.Len() + y.data.Len())
 		xsize := x.shape[len(x.shape)-1]
-		ysize := y.Size() / nrows
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(xsize, xsize, 1, 1)
 
 	case x.Rank()+1 == y.Rank() && sameShape(x.shape, y.shape[:len(y.shape)-1]):
 		// elem, list
 		setShape(y, 1)
 		data.Resize(y.data.Len() + x.data.Len())
-		xsize := x.Size() / nrows
 		ysize := y.shape[len(y.shape)-1]
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(1, 1, ysize, ysize)
 
 	case x.Rank() == 1 && x.shape[0] == 1 && y.Rank() > 1:
 		// scalar extension, list
-- 
2.43.0


From 1577ce06af28b2c5dfb148db7f80354f6b7f1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 08/85] fix: sel of a matrix with no rows must not divide by
 zero

---
 value/binary.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index e93e7d9..978bed4 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1517,10 +1517,15 @@ func init() {
 					if len(count.shape) != 1 {
 						Errorf("sel count cannot be matrix")
 					}
-					result := m.data.sel(count.data, m.shape[len(m.shape)-1])
+					ncols := m.shape[len(m.shape)-1]
+					result := m.data.sel(count.data, ncols)
 					newShape := make([]int, len(m.shape))
 					copy(newShape, m.shape)
-					newShape[len(m.shape)-1] = result.Len() / size(m.shape[:len(m.shape)-1])
+					newShape[len(m.shape)-1] = 0
+					for i := range ncols {
+						n := count.data.intAt(i%count.data.Len(), "sel count")
+						newShape[len(m.shape)-1] += max(n, -n)
+					}
 					return NewMatrix(newShape, result)
 				},
 			},
-- 
2.43.0


From 0f3d52977da9fbbe4278f8f1373329ca71b31294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 09/85] fix: part of a matrix with one row or a row starting
 with score 0

---
 value/matrix.go | 10 +++++++++-
 value/vector.go | 15 ++++-----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index 5ef17a6..97eab67 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -918,7 +918,15 @@ func (m *Matrix) partition(scoreM *Matrix) Value {
 	if score.Len() != lastDim {
 		Errorf("part: length mismatch")
 	}
-	res, dim := m.data.doPartition(score)
+	res := m.data.doPartition(score)
+	dim := 0 // Number of groups in each row.
+	for i, prev := 0, 0; i < lastDim; i++ {
+		sc := score.uintAt(i, "part: score")
+		if sc > prev {
+			dim++
+		}
+		prev = sc
+	}
 	newShape := append([]int{}, m.shape...)
 	newShape[len(newShape)-1] = dim
 	return NewMatrix(newShape, res)
diff --git a/value/vector.go b/value/vector.go
index d1c1562..4374011 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -505,18 +505,14 @@ func (v *Vector) partition(score *Vector) Value {
 	if score.Len() != v.Len() {
 		Errorf("part: length mismatch")
 	}
-	res, _ := v.doPartition(score)
-	return res
+	return v.doPartition(score)
 }
 
 // doPartition iterates along the vector to do the partitioning. It is called from
-// vector and matrix partitioning code, which use different length checks. The
-// integer returned is the width (last dimension) to use when partitioning a
-// matrix.
-func (v *Vector) doPartition(score *Vector) (*Vector, int) {
+// vector and matrix partitioning code, which use different length checks.
+func (v *Vector) doPartition(score *Vector) *Vector {
 	accum := newVectorEditor(0, nil)
 	result := newVectorEditor(0, nil)
-	dim := -1
 	for i, sc, prev := 0, 0, 0; i < v.Len(); i, prev = i+1, sc {
 		j := i % score.Len()
 		sc = score.uintAt(j, "part: score")
@@ -527,14 +523,11 @@ func (v *Vector) doPartition(score *Vector) (*Vector, int) {
 			}
 			accum.Append(v.At(i))
 		}
-		if dim < 0 && i > 0 && j == 0 { // Score rolled over for first time; set dim.
-			dim = result.Len()
-		}
 	}
 	if accum.Len() > 0 {
 		result.Append(accum.Publish())
 	}
-	return result.Publish(), dim
+	return result.Publish()
 }
 
 // grade returns as a Vector the indexes that sort the vector into increasing order
-- 
2.43.0


From ec433774c07c28fad720b8be18f18f3e775e4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:32 +0000
Subject: [PATCH 10/85] fix: shape of an index expression with several empty
 slots

---
 value/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/value/index.go b/value/index.go
index 718d617..c7f0caf 100644
--- a/value/index.go
+++ b/value/index.go
@@ -71,6 +71,7 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 	slices.Reverse(ix.outShape)
 
 	// The offsets stored in outShapeToUpdate must also be flipped.
+	slices.Reverse(outShapeToUpdate)
 	for i, o := range outShapeToUpdate {
 		outShapeToUpdate[i] = len(ix.outShape) - o - 1
 	}
-- 
2.43.0


From 7d0de0659b9db7abf5833666726dcedfd524fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:39 +0000
Subject: [PATCH 11/85] fix: indexing a matrix with an empty trailing dimension
 must not divide by zero

---
 value/index.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/value/index.go b/value/index.go
index c7f0caf..acdb001 100644
--- a/value/index.go
+++ b/value/index.go
@@ -224,7 +224,10 @@ func Index(context Context, top, left Expr, index []Expr) Value {
 
 	data := newVectorEditor(ix.outSize, nil)
 	copySize := int(size(ix.shape[ix.indexDim:]))
-	n := data.Len() / copySize
+	n := 0
+	if data.Len() > 0 {
+		n = data.Len() / copySize
+	}
 
 	if ix.indexVector != nil {
 		for i, v := range ix.indexVector.All() {
@@ -332,7 +335,10 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 	}
 
 	copySize := int(size(ix.shape[ix.indexDim:]))
-	n := ix.outSize / copySize
+	n := 0
+	if ix.outSize > 0 {
+		n = ix.outSize / copySize
+	}
 	pfor(true, copySize, n, func(lo, hi int) {
 		if ix.indexVector != nil {
 			for i := lo; i < hi; i++ {
-- 
2.43.0


From 9dd0266da4567504d984ecaa80fe11d1104fb16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:43 +0000
Subject: [PATCH 12/85] fix: arithmetic on a one-element matrix and a vector
 must yield a vector

---
 value/eval.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/eval.go b/value/eval.go
index d719c29..a6ef0d8 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -708,7 +708,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 
 	// One or the other may be a scalar in disguise.
 	switch {
-	case isScalar(u):
+	case isScalar(u) && (!isScalar(v) || v.Rank() >= u.Rank()):
 		// Scalar op Matrix.
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
@@ -754,6 +754,9 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 			}
 		})
 	}
+	if len(shape) == 1 { // The one that isn't a scalar in disguise is a vector.
+		return n.Publish()
+	}
 	return NewMatrix(shape, n.Publish())
 }
 
-- 
2.43.0


From 2e1c5b47d2170b40f480b8b8adfc79879962adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:39 +0000
Subject: [PATCH 13/85] fix: TransientSlice.At must not race with a concurrent
 Set of another element

---
 value/persist/slice.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/value/persist/slice.go b/value/persist/slice.go
index f0d9b7d..bba4ce6 100644
--- a/value/persist/slice.go
+++ b/value/persist/slice.go
@@ -156,6 +156,11 @@ func (s *Slice[T]) At(i int) T {
 	if i >= s.tlen {
 		return s.tail[i&chunkMask]
 	}
+	return s.treeAt(i)
+}
+
+// treeAt returns s[i] for i < s.tlen.
+func (s *Slice[T]) treeAt(i int) T {
 	p := s.tree.Load()
 	for shift := (s.height - 1) * chunkBits; shift > 0 && p != nil; shift -= chunkBits {
 		p = p.(*inode).ptr[(i>>shift)&chunkMask].Load()
@@ -168,7 +173,17 @@ func (s *Slice[T]) At(i int) T {
 }
 
 // At returns t[i].
-func (t *TransientSlice[T]) At(i int) T { return t.s.At(i) }
+func (t *TransientSlice[T]) At(i int) T {
+	if i < 0 || i >= t.Len() {
+		panic(fmt.Sprintf("index %d out of range [0:%d]", i, t.Len()))
+	}
+	if i >= t.s.tlen {
+		// A concurrent t.Set may replace t.s.tail until it is writable.
+		t.writeTail()
+		return t.s.tail[i&chunkMask]
+	}
+	return t.s.treeAt(i)
+}
 
 // All returns an iterator over s[0:len(s)].
 func (s *Slice[T]) All() iter.Seq2[int, T] {
-- 
2.43.0


From b1775992c7b5b1c771cf87c816b59f37413a6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:37 +0000
Subject: [PATCH 14/85] fix: do not parallelize rand or user-defined operators
 that hide built-in ones

---
 value/eval.go | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index a6ef0d8..b1f2a63 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -166,17 +166,19 @@ func Product(c Context, u Value, op string, v Value) Value {
 }
 
 // safeBinary reports whether the binary operator op is safe to parallelize.
-func safeBinary(op string) bool {
+func safeBinary(c Context, op string) bool {
 	// ? uses the random number generator,
 	// which maintains global state.
-	return BinaryOps[op] != nil && op != "?"
+	// A user-defined op may hide the built-in one.
+	return BinaryOps[op] != nil && op != "?" && !c.UserDefined(op, true)
 }
 
 // safeUnary reports whether the unary operator op is safe to parallelize.
-func safeUnary(op string) bool {
-	// ? uses the random number generator,
+func safeUnary(c Context, op string) bool {
+	// ? and rand use the random number generator,
 	// which maintains global state.
-	return UnaryOps[op] != nil && op != "?"
+	// A user-defined op may hide the built-in one.
+	return UnaryOps[op] != nil && op != "?" && op != "rand" && !c.UserDefined(op, false)
 }
 
 // knownAssoc reports whether the binary op is known to be associative.
@@ -266,7 +268,7 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 		n := v.shape[0]
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
-		pfor(safeBinary(left) && safeBinary(right), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, left) && safeBinary(c, right), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				i := x / vstride * n
 				j := x % vstride
@@ -297,7 +299,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 	case *Vector:
 		v := v.(*Vector)
 		data := newVectorEditor(u.Len()*v.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())))
 			}
@@ -308,7 +310,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		udata := u.Data()
 		vdata := v.Data()
 		data := newVectorEditor(udata.Len()*vdata.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
 			}
@@ -345,7 +347,7 @@ func Reduce(c Context, op string, v Value) Value {
 		}
 		shape := v.shape[:v.Rank()-1]
 		data := newVectorEditor(size(shape), nil)
-		pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), stride, data.Len(), func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := stride * i
 				pos := index + stride - 1
@@ -389,7 +391,7 @@ func ReduceFirst(c Context, op string, v Value) Value {
 	}
 	shape := m.shape[1:m.Rank()]
 	data := newVectorEditor(size(shape), nil)
-	pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+	pfor(safeBinary(c, op), stride, data.Len(), func(lo, hi int) {
 		for i := lo; i < hi; i++ {
 			pos := i + m.data.Len() - stride
 			acc := m.data.At(pos)
@@ -440,7 +442,7 @@ func Scan(c Context, op string, v Value) Value {
 		}
 		data := newVectorEditor(v.data.Len(), nil)
 		nrows := size(v.shape[:len(v.shape)-1])
-		pfor(safeBinary(op), stride, nrows, func(lo, hi int) {
+		pfor(safeBinary(c, op), stride, nrows, func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := i * stride
 				// This is fundamentally O(n²) in the general case.
@@ -649,7 +651,7 @@ func Each(c Context, op string, v Value) Value {
 func unaryVectorOp(c Context, op string, i Value) Value {
 	u := i.(*Vector)
 	n := newVectorEditor(u.Len(), nil)
-	pfor(safeUnary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeUnary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalUnary(op, u.At(k)))
 		}
@@ -661,7 +663,7 @@ func unaryVectorOp(c Context, op string, i Value) Value {
 func unaryMatrixOp(c Context, op string, i Value) Value {
 	u := i.(*Matrix)
 	n := newVectorEditor(u.data.Len(), nil)
-	pfor(safeUnary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeUnary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalUnary(op, u.data.At(k)))
 		}
@@ -674,7 +676,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	u, v := i.(*Vector), j.(*Vector)
 	if u.Len() == 1 {
 		n := newVectorEditor(v.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.At(0), op, v.At(k)))
 			}
@@ -683,7 +685,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	}
 	if v.Len() == 1 {
 		n := newVectorEditor(u.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.At(k), op, v.At(0)))
 			}
@@ -692,7 +694,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	}
 	u.sameLength(v)
 	n := newVectorEditor(u.Len(), nil)
-	pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalBinary(u.At(k), op, v.At(k)))
 		}
@@ -712,7 +714,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Scalar op Matrix.
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(0), op, v.data.At(k)))
 			}
@@ -720,7 +722,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 	case isScalar(v):
 		// Matrix op Scalar.
 		n = newVectorEditor(u.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(0)))
 			}
@@ -730,7 +732,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
 		dim := u.shape[0]
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k%dim), op, v.data.At(k)))
 			}
@@ -739,7 +741,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Matrix op Vector.
 		n = newVectorEditor(u.data.Len(), nil)
 		dim := v.shape[0]
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(k%dim)))
 			}
@@ -748,7 +750,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Matrix op Matrix.
 		u.sameShape(v)
 		n = newVectorEditor(u.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(k)))
 			}
-- 
2.43.0


From 1e59e7672dbf475758de2fd5aea09624782ca7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:45 +0000
Subject: [PATCH 15/85] fix: scan with a user-defined operator that hides a
 built-in one

---
 value/eval.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index b1f2a63..d635adc 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -182,7 +182,10 @@ func safeUnary(c Context, op string) bool {
 }
 
 // knownAssoc reports whether the binary op is known to be associative.
-func knownAssoc(op string) bool {
+func knownAssoc(c Context, op string) bool {
+	if c.UserDefined(op, true) {
+		return false // It hides the built-in op.
+	}
 	switch op {
 	case "+", "*", "min", "max", "or", "and", "xor", "|", "&", "^":
 		return true
@@ -422,7 +425,7 @@ func Scan(c Context, op string, v Value) Value {
 		// This is fundamentally O(n²) in the general case.
 		// We make it O(n) for known associative ops.
 		values.Set(0, v.At(0))
-		if knownAssoc(op) {
+		if knownAssoc(c, op) {
 			for i := 1; i < v.Len(); i++ {
 				values.Set(i, c.EvalBinary(values.At(i-1), op, v.At(i)))
 			}
@@ -448,7 +451,7 @@ func Scan(c Context, op string, v Value) Value {
 				// This is fundamentally O(n²) in the general case.
 				// We make it O(n) for known associative ops.
 				data.Set(index, v.data.At(index))
-				if knownAssoc(op) {
+				if knownAssoc(c, op) {
 					for j := 1; j < stride; j++ {
 						data.Set(index+j, c.EvalBinary(data.At(index+j-1), op, v.data.At(index+j)))
 					}
-- 
2.43.0


From ffc99bef21f1bd1d01eaa0d7580656a3ed18c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:52 +0000
Subject: [PATCH 16/85] fix: inner product with an empty inner dimension must
 not divide by zero

---
 value/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index d635adc..aad57c3 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -269,6 +269,9 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 			Errorf("inner product: mismatched shapes %s and %s", NewIntVector(u.shape...), NewIntVector(v.shape...))
 		}
 		n := v.shape[0]
+		if n == 0 {
+			Errorf("empty inner product")
+		}
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
 		pfor(safeBinary(c, left) && safeBinary(c, right), 1, data.Len(), func(lo, hi int) {
-- 
2.43.0


From 309e4ac84004d100e10d6bde74fb37ab8aaff621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:25 +0000
Subject: [PATCH 17/85] fix: assigning repeatedly to one element of an array
 must not race

---
 value/index.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/value/index.go b/value/index.go
index acdb001..c69f010 100644
--- a/value/index.go
+++ b/value/index.go
@@ -202,6 +202,24 @@ func (ix *indexState) initVectorIndex(origin Int) bool {
 	return true
 }
 
+// distinct reports whether the indexes are known to denote distinct elements.
+func (ix *indexState) distinct(origin Int) bool {
+	if ix.indexVector != nil {
+		return false
+	}
+	for i, v := range ix.indexes {
+		seen := make([]bool, ix.shape[i])
+		for _, vj := range v.All() {
+			k := vj.(Int) - origin
+			if seen[k] {
+				return false
+			}
+			seen[k] = true
+		}
+	}
+	return true
+}
+
 // Index returns left[index].
 // Left and index will be evaluated (right to left),
 // while top is only for its ProgString method.
@@ -339,7 +357,9 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 	if ix.outSize > 0 {
 		n = ix.outSize / copySize
 	}
-	pfor(true, copySize, n, func(lo, hi int) {
+	// If an element is assigned more than once, the last one must win,
+	// so don't parallelize.
+	pfor(ix.distinct(origin), copySize, n, func(lo, hi int) {
 		if ix.indexVector != nil {
 			for i := lo; i < hi; i++ {
 				v := ix.indexVector.At(i).(*Vector)
-- 
2.43.0


From 738839a43541c54672b1edb5148a4fdb53a737bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:59 +0000
Subject: [PATCH 18/85] fix: unique must keep the first of equal elements

---
 value/sets.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/sets.go b/value/sets.go
index e99aea2..7d444d7 100644
--- a/value/sets.go
+++ b/value/sets.go
@@ -128,7 +128,8 @@ func unique(c Context, v Value) Value {
 		sorted[i] = indexedValue{i, x}
 	}
 	// Sort based on the values, preserving index information.
-	sort.Slice(sorted, func(i, j int) bool {
+	// The sort must be stable so the first of equal elements is kept.
+	sort.SliceStable(sorted, func(i, j int) bool {
 		c := OrderedCompare(c, sorted[i].v, sorted[j].v)
 		if c == 0 {
 			// Choose lower type. You need to choose one, so pick lowest.
-- 
2.43.0


From f2a0db52229f4dbeb90afc174daeb7d0b0639441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 19/85] fix: matrices of different shape are not equal

---
 value/sets.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/value/sets.go b/value/sets.go
index 7d444d7..832872a 100644
--- a/value/sets.go
+++ b/value/sets.go
@@ -191,7 +191,7 @@ func notEqual(c Context, u, v Value) Value {
 // When comparing identically-typed values:
 //   - Complex is ordered first by real component, then by imaginary.
 //   - Vector and Matrix are ordered first by number of elements,
-//     then in lexical order of elements.
+//     then (Matrix) by shape, then in lexical order of elements.
 //
 // These are unusual rules, but they are provide a unique ordering of elements
 // sufficient for set membership. // Exported for testing, which is done by the
@@ -277,6 +277,15 @@ func OrderedCompare(c Context, u, v Value) int {
 		if uu.data.Len() != vv.data.Len() {
 			return sgn2Int(uu.data.Len(), vv.data.Len())
 		}
+		// Same number of elements, but the shapes may differ.
+		if len(uu.shape) != len(vv.shape) {
+			return sgn2Int(len(uu.shape), len(vv.shape))
+		}
+		for i, n := range uu.shape {
+			if n != vv.shape[i] {
+				return sgn2Int(n, vv.shape[i])
+			}
+		}
 		for i, x := range uu.data.All() {
 			s := OrderedCompare(c, x, vv.data.At(i))
 			if s != 0 {
-- 
2.43.0


From 5861fd1e307bb1e760cad6bc08f6779b2dc62ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:38 +0000
Subject: [PATCH 20/85] fix: up, down and iota of matrices with no rows or
 columns must not divide by zero

---
 value/binary.go | 12 ++++++------
 value/matrix.go |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index 978bed4..80c20aa 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1178,14 +1178,14 @@ func init() {
 					if len(shape) == 0 {
 						shape = []int{1}
 					}
-					n := A.data.Len() / A.shape[0] // elements in each comparison
-					indices := newVectorEditor(B.data.Len()/n, nil)
-					pfor(true, n, B.data.Len()/n, func(lo, hi int) {
+					n := size(A.shape[1:]) // elements in each comparison
+					indices := newVectorEditor(size(shape), nil)
+					pfor(true, n, indices.Len(), func(lo, hi int) {
 						for i := lo; i < hi; i++ {
 							indices.Set(i, Int(origin-1))
-							for j := 0; j < A.data.Len(); j += n {
-								if allEqual(c, A.data, j, B.data, i*n, n) {
-									indices.Set(i, Int(j/n+origin))
+							for j := 0; j < A.shape[0]; j++ {
+								if allEqual(c, A.data, j*n, B.data, i*n, n) {
+									indices.Set(i, Int(j+origin))
 									break
 								}
 							}
diff --git a/value/matrix.go b/value/matrix.go
index 97eab67..14e6667 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1055,7 +1055,7 @@ func (m *Matrix) grade(c Context) *Vector {
 		x[i] = i
 	}
 	v := m.data
-	stride := v.Len() / m.shape[0]
+	stride := size(m.shape[1:])
 	sort.Slice(x, func(i, j int) bool {
 		i = x[i] * stride
 		j = x[j] * stride
-- 
2.43.0


From b2b5114c08bb214042ac77fdee15ef53c9affa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:44 +0000
Subject: [PATCH 21/85] fix: trigonometric functions must not modify their
 argument

---
 value/sin.go  | 9 ++++++---
 value/sinh.go | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/value/sin.go b/value/sin.go
index b40ce30..d41d1b3 100644
--- a/value/sin.go
+++ b/value/sin.go
@@ -39,6 +39,7 @@ func tan(c Context, v Value) Value {
 	if x.IsInf() {
 		Errorf("tangent of infinity")
 	}
+	x = newFloat(c).Set(x) // Do not modify the argument.
 	negate := false
 	if x.Sign() < 0 {
 		x.Neg(x)
@@ -62,6 +63,7 @@ func floatSin(c Context, x *big.Float) *big.Float {
 	if x.IsInf() {
 		Errorf("sine of infinity")
 	}
+	x = newFloat(c).Set(x) // Do not modify the argument.
 	negate := false
 	if x.Sign() < 0 {
 		x.Neg(x)
@@ -87,6 +89,7 @@ func floatCos(c Context, x *big.Float) *big.Float {
 	if x.IsInf() {
 		Errorf("cosine of infinity")
 	}
+	x = newFloat(c).Set(x) // Do not modify the argument.
 	twoPiReduce(c, x)
 
 	// cos(x) = 1 - x²/2! + x⁴/4! - ...
@@ -126,7 +129,7 @@ func sincos(name string, c Context, index int, x *big.Float, z *big.Float, exp u
 	return z
 }
 
-// twoPiReduce guarantees x < 2π; x is known to be >= 0 coming in.
+// twoPiReduce guarantees x < 2π, modifying x in place; x is known to be >= 0 coming in.
 func twoPiReduce(c Context, x *big.Float) {
 	// TODO: Is there an easy better algorithm?
 	twoPi := newFloat(c).Set(floatTwo)
@@ -187,8 +190,8 @@ func complexTan(c Context, v Complex) Value {
 	x := floatSelf(c, v.real).Float
 	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x = newFloat(c).Mul(x, floatTwo)
+	y = newFloat(c).Mul(y, floatTwo)
 	sin2X := floatSin(c, x)
 	sinh2Y := floatSinh(c, y)
 	cos2X := floatCos(c, x)
diff --git a/value/sinh.go b/value/sinh.go
index e006585..325468b 100644
--- a/value/sinh.go
+++ b/value/sinh.go
@@ -146,8 +146,8 @@ func complexTanh(c Context, v Complex) Value {
 	x := floatSelf(c, v.real).Float
 	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x = newFloat(c).Mul(x, floatTwo)
+	y = newFloat(c).Mul(y, floatTwo)
 	sinh2X := floatSinh(c, x)
 	sin2Y := floatSin(c, y)
 	cosh2X := floatCosh(c, x)
-- 
2.43.0


From 68a30c60170953b273d626ba521adce2144fa2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 22/85] fix: outer product and mix must not write to the shape
 of another matrix

---
 value/eval.go   | 3 ++-
 value/matrix.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index aad57c3..2bf2226 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -9,6 +9,7 @@ import (
 	"iter"
 	"math/big"
 	"runtime"
+	"slices"
 	"strings"
 )
 
@@ -321,7 +322,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
 			}
 		})
-		return NewMatrix(append(u.Shape(), v.Shape()...), data.Publish())
+		return NewMatrix(slices.Concat(u.Shape(), v.Shape()), data.Publish())
 	}
 	Errorf("can't do outer product on %s", whichType(u))
 	panic("not reached")
diff --git a/value/matrix.go b/value/matrix.go
index 14e6667..a281321 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1044,7 +1044,7 @@ func (m *Matrix) mix(c Context) Value {
 			data.Append(elem)
 		}
 	}
-	return NewMatrix(append(m.shape, shape...), data.Publish())
+	return NewMatrix(slices.Concat(m.shape, shape), data.Publish())
 }
 
 // grade returns as a Vector the indexes that sort the rows of m
-- 
2.43.0


From f426ca6e519b54d230f0524af70f430e87a6886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:57 +0000
Subject: [PATCH 23/85] fix: an assignment used as an operand must yield its
 plain value

---
 value/expr.go  | 4 ++--
 value/index.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/expr.go b/value/expr.go
index 153436c..88a402b 100644
--- a/value/expr.go
+++ b/value/expr.go
@@ -55,7 +55,7 @@ func (b *BinaryExpr) Eval(context Context) Value {
 		return assign(context, b)
 	}
 	rhs := b.Right.Eval(context).Inner()
-	lhs := b.Left.Eval(context)
+	lhs := b.Left.Eval(context).Inner()
 	return context.EvalBinary(lhs, b.Op, rhs)
 }
 
@@ -87,7 +87,7 @@ func (e VectorExpr) Eval(context Context) Value {
 	//	x=1000; x + x=2
 	// (yielding 4) work.
 	for i := len(e) - 1; i >= 0; i-- {
-		v.Set(i, e[i].Eval(context))
+		v.Set(i, e[i].Eval(context).Inner())
 	}
 	return v.Publish()
 }
diff --git a/value/index.go b/value/index.go
index c69f010..32a69ce 100644
--- a/value/index.go
+++ b/value/index.go
@@ -90,7 +90,7 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 		}
 		ix.lhs = lvar.value
 	} else {
-		ix.lhs = left.Eval(context)
+		ix.lhs = left.Eval(context).Inner()
 	}
 	switch lhs := ix.lhs.(type) {
 	default:
-- 
2.43.0


From 7f543c1b9cab56d59c0b5a17ff58a1faa6e965b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 24/85] fix: list a complex constant as a single number

---
 value/complex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/complex.go b/value/complex.go
index 6b8da09..d254845 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -47,7 +47,7 @@ func (c Complex) Sprint(conf *config.Config) string {
 }
 
 func (c Complex) ProgString() string {
-	return fmt.Sprintf("%sj%s", c.real, c.imag)
+	return fmt.Sprintf("%sj%s", c.real.ProgString(), c.imag.ProgString())
 }
 
 func (c Complex) Eval(Context) Value {
-- 
2.43.0


From d78d8557c339ebc860a30a9cd1c349d8808c5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:35 +0000
Subject: [PATCH 25/85] fix: parenthesize an indexed constant inside a vector
 when listing an operator

---
 value/expr.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/value/expr.go b/value/expr.go
index 88a402b..d834d01 100644
--- a/value/expr.go
+++ b/value/expr.go
@@ -227,7 +227,14 @@ func IsCompound(x interface{}) bool {
 	case VectorExpr:
 		return true
 	case *IndexExpr:
-		return IsCompound(x.Left)
+		// An index binds tightly only to a variable: 1 2[1] is (1 2)[1].
+		switch left := x.Left.(type) {
+		case *VarExpr:
+			return false
+		case *IndexExpr:
+			return IsCompound(left)
+		}
+		return true
 	default:
 		return true
 	}
-- 
2.43.0


From 118b06098d1062ba2f644a60496c621bbe55ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:42 +0000
Subject: [PATCH 26/85] fix: list an operator that is declared but not defined
 as a declaration

---
 exec/function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exec/function.go b/exec/function.go
index 394ada0..79e90dc 100644
--- a/exec/function.go
+++ b/exec/function.go
@@ -54,6 +54,10 @@ func (fn *Function) String() string {
 	b.WriteString(fn.Name)
 	b.WriteRune(' ')
 	argProgString(&b, fn.Right)
+	if fn.Body == nil {
+		// Declared but not defined.
+		return b.String()
+	}
 	b.WriteString(" = ")
 	if len(fn.Body) == 1 {
 		b.WriteString(fn.Body[0].ProgString())
-- 
2.43.0


From 95a8a0b8903681a4222e206fac26eda096e58cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:04 +0000
Subject: [PATCH 27/85] fix: locals of an operator must start undefined in
 every call

---
 exec/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exec/context.go b/exec/context.go
index bf7b06b..c76dd4e 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -96,6 +96,7 @@ func (c *Context) push(fn *Function) {
 	}
 	c.frameSizes = append(c.frameSizes, len(fn.Locals))
 	c.stack = c.stack[:n+len(fn.Locals)]
+	clear(c.stack[n:]) // Locals start undefined, whatever an earlier call left here.
 }
 
 // pop pops the top frame from the stack.
-- 
2.43.0


From a387d52f10c5a4066e6d6f4d0b0bd935373b3205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:18 +0000
Subject: [PATCH 28/85] fix: store in _ the last value printed, not the quiet
 result of an assignment

---
 run/run.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/run/run.go b/run/run.go
index 6722827..4ff4c3d 100644
--- a/run/run.go
+++ b/run/run.go
@@ -85,7 +85,7 @@ func Run(p *parse.Parser, context value.Context, interactive bool) (success bool
 			conf.SetCPUTime(time.Since(start), user2-user, sys2-sys)
 		}
 		if printValues(conf, writer, values) {
-			context.AssignGlobal("_", values[len(values)-1])
+			context.AssignGlobal("_", lastPrinted(values))
 		}
 		if !ok {
 			return true
@@ -162,6 +162,16 @@ func printValues(conf *config.Config, writer io.Writer, values []value.Value) bo
 	return printed
 }
 
+// lastPrinted returns the last of the values that printValues prints.
+func lastPrinted(values []value.Value) value.Value {
+	for i := len(values) - 1; i >= 0; i-- {
+		if _, ok := values[i].(value.QuietValue); !ok {
+			return values[i]
+		}
+	}
+	return nil // Not reached if anything was printed.
+}
+
 // Ivy evaluates the input string, appending standard output
 // and error output to the provided buffers, which it does by
 // calling context.Config.SetOutput and SetError.
-- 
2.43.0


From 2925b42f1953777d6b6a1f2b0a86baa7000fd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:47 +0000
Subject: [PATCH 29/85] fix: each, reductions, scans and products must store
 plain values

---
 value/eval.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 2bf2226..5827645 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -255,9 +255,9 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 		if n == 0 {
 			Errorf("empty inner product")
 		}
-		x := c.EvalBinary(u.At(n-1), right, v.At(n-1))
+		x := c.EvalBinary(u.At(n-1), right, v.At(n-1)).Inner()
 		for k := n - 2; k >= 0; k-- {
-			x = c.EvalBinary(c.EvalBinary(u.At(k), right, v.At(k)), left, x)
+			x = c.EvalBinary(c.EvalBinary(u.At(k), right, v.At(k)).Inner(), left, x).Inner()
 		}
 		return x
 	case *Matrix:
@@ -279,9 +279,9 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 			for x := lo; x < hi; x++ {
 				i := x / vstride * n
 				j := x % vstride
-				acc := c.EvalBinary(u.data.At(i+n-1), right, v.data.At(j+(n-1)*vstride))
+				acc := c.EvalBinary(u.data.At(i+n-1), right, v.data.At(j+(n-1)*vstride)).Inner()
 				for k := n - 2; k >= 0; k-- {
-					acc = c.EvalBinary(c.EvalBinary(u.data.At(i+k), right, v.data.At(j+k*vstride)), left, acc)
+					acc = c.EvalBinary(c.EvalBinary(u.data.At(i+k), right, v.data.At(j+k*vstride)).Inner(), left, acc).Inner()
 				}
 				data.Set(x, acc)
 			}
@@ -308,7 +308,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		data := newVectorEditor(u.Len()*v.Len(), nil)
 		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
-				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())))
+				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())).Inner())
 			}
 		})
 		return NewMatrix([]int{u.Len(), v.Len()}, data.Publish())
@@ -319,7 +319,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		data := newVectorEditor(udata.Len()*vdata.Len(), nil)
 		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
-				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
+				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())).Inner())
 			}
 		})
 		return NewMatrix(slices.Concat(u.Shape(), v.Shape()), data.Publish())
@@ -341,7 +341,7 @@ func Reduce(c Context, op string, v Value) Value {
 		}
 		acc := v.At(v.Len() - 1)
 		for i := v.Len() - 2; i >= 0; i-- {
-			acc = c.EvalBinary(v.At(i), op, acc)
+			acc = c.EvalBinary(v.At(i), op, acc).Inner()
 		}
 		return acc
 	case *Matrix:
@@ -361,7 +361,7 @@ func Reduce(c Context, op string, v Value) Value {
 				acc := v.data.At(pos)
 				pos--
 				for j := 1; j < stride; j++ {
-					acc = c.EvalBinary(v.data.At(pos), op, acc)
+					acc = c.EvalBinary(v.data.At(pos), op, acc).Inner()
 					pos--
 				}
 				data.Set(i, acc)
@@ -403,7 +403,7 @@ func ReduceFirst(c Context, op string, v Value) Value {
 			pos := i + m.data.Len() - stride
 			acc := m.data.At(pos)
 			for j := pos - stride; j >= 0; j -= stride {
-				acc = c.EvalBinary(m.data.At(j), op, acc)
+				acc = c.EvalBinary(m.data.At(j), op, acc).Inner()
 			}
 			data.Set(i, acc)
 		}
@@ -431,7 +431,7 @@ func Scan(c Context, op string, v Value) Value {
 		values.Set(0, v.At(0))
 		if knownAssoc(c, op) {
 			for i := 1; i < v.Len(); i++ {
-				values.Set(i, c.EvalBinary(values.At(i-1), op, v.At(i)))
+				values.Set(i, c.EvalBinary(values.At(i-1), op, v.At(i)).Inner())
 			}
 		} else {
 			for i := 1; i < v.Len(); i++ {
@@ -457,7 +457,7 @@ func Scan(c Context, op string, v Value) Value {
 				data.Set(index, v.data.At(index))
 				if knownAssoc(c, op) {
 					for j := 1; j < stride; j++ {
-						data.Set(index+j, c.EvalBinary(data.At(index+j-1), op, v.data.At(index+j)))
+						data.Set(index+j, c.EvalBinary(data.At(index+j-1), op, v.data.At(index+j)).Inner())
 					}
 				} else {
 					for j := 1; j < stride; j++ {
@@ -619,7 +619,7 @@ func BinaryEach(c Context, lv Value, op string, rv Value) Value {
 
 	for x := range lhs {
 		for y := range rhs {
-			data.Append(c.EvalBinary(x, innerOp, y))
+			data.Append(c.EvalBinary(x, innerOp, y).Inner())
 		}
 	}
 
@@ -645,7 +645,7 @@ func Each(c Context, op string, v Value) Value {
 
 	data := newVectorEditor(0, nil)
 	for x := range eachValue(v, d) {
-		data.Append(c.EvalUnary(op[:len(op)-d], x))
+		data.Append(c.EvalUnary(op[:len(op)-d], x).Inner())
 	}
 
 	if d == 1 {
-- 
2.43.0


From c5370cf4d3f41d590fa8a8c71f2032a07bcf5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:54 +0000
Subject: [PATCH 30/85] fix: a failed operator definition must leave no trace

---
 parse/function.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index 5c1a957..b15dd96 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -6,6 +6,7 @@ package parse
 
 import (
 	"fmt"
+	"slices"
 
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
@@ -59,6 +60,7 @@ func (p *Parser) functionDefn() {
 	}
 
 	// Prepare to declare arguments.
+	defer p.context.ForgetAll()
 	argNames := make(map[string]bool)
 	declare := func(x *value.VarExpr) {
 		if x.Name == fn.Name {
@@ -91,11 +93,16 @@ func (p *Parser) functionDefn() {
 
 	// Define it, but prepare to undefine if there's trouble.
 	prevDefn := installMap[fn.Name]
+	prevDefs := slices.Clone(p.context.Defs)
+	prevVar := p.context.Globals[fn.Name] // Define deletes a zero variable.
 	p.context.Define(fn)
-	defer p.context.ForgetAll()
 	succeeded := false
 	defer func() {
 		if !succeeded {
+			p.context.Defs = prevDefs
+			if prevVar != nil {
+				p.context.Globals[fn.Name] = prevVar
+			}
 			if prevDefn == nil {
 				delete(installMap, fn.Name)
 			} else {
-- 
2.43.0


From b3dc3510b288aeb19f4221fd98dd067c6be7807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:23 +0000
Subject: [PATCH 31/85] fix: )debug parse must not crash on the definition of a
 unary operator

---
 parse/function.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index b15dd96..6ae7941 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -157,7 +157,11 @@ func (p *Parser) functionDefn() {
 	funcVars(fn)
 	succeeded = true
 	if p.context.Config().Debug("parse") > 0 {
-		p.Printf("op %s %s %s = %s\n", fn.Left.ProgString(), fn.Name, fn.Right.ProgString(), tree(fn.Body))
+		left := ""
+		if fn.IsBinary {
+			left = fn.Left.ProgString() + " "
+		}
+		p.Printf("op %s%s %s = %s\n", left, fn.Name, fn.Right.ProgString(), tree(fn.Body))
 	}
 }
 
-- 
2.43.0


From eecf8e794201a5859c85b18876d4018695ac1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:28 +0000
Subject: [PATCH 32/85] fix: an operator's name must not be assigned as a
 variable

---
 exec/context.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/exec/context.go b/exec/context.go
index c76dd4e..da834c4 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -72,6 +72,7 @@ func (c *Context) Global(name string) *value.Var {
 func (c *Context) AssignGlobal(name string, val value.Value) {
 	v := c.Globals[name]
 	if v == nil {
+		c.noOp(name)
 		c.Globals[name] = value.NewVar(name, val)
 	} else {
 		v.Assign(val)
@@ -297,12 +298,9 @@ func (c *Context) noVar(name string) {
 	value.Errorf("cannot define op %s; it is a variable (%[1]s=0 to clear)", name)
 }
 
-// noOp is the dual of noVar. It also checks for assignment to builtins.
+// noOp is the dual of noVar.
 // It just errors out if there is a conflict.
 func (c *Context) noOp(name string) {
-	if name == "pi" || name == "e" { // Cannot redefine these.
-		value.Errorf("cannot reassign %q", name)
-	}
 	if c.UnaryFn[name] == nil && c.BinaryFn[name] == nil {
 		return
 	}
-- 
2.43.0


From d60cb82a2ad256f394e59efe552c999abbe5ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:51 +0000
Subject: [PATCH 33/85] fix: a )get that is nested too deep must not use up the
 nesting allowance

---
 parse/special.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/special.go b/parse/special.go
index 6beb0c8..caf220a 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -393,6 +393,7 @@ func (p *Parser) runFromFile(context value.Context, name string) {
 func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) {
 	runDepth++
 	if runDepth > 10 {
+		runDepth--
 		p.errorf("invocations of %q nested too deep", name)
 	}
 	defer func() {
@@ -419,6 +420,7 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 func (p *Parser) runUntilError(name string) error {
 	runDepth++
 	if runDepth > 10 {
+		runDepth--
 		p.errorf("get %q nested too deep", name)
 	}
 	defer func() {
-- 
2.43.0


From ae947016766dbf075a42e8d39899a7a7861e97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:58 +0000
Subject: [PATCH 34/85] fix: )prompt must report the prompt

---
 parse/special.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/special.go b/parse/special.go
index caf220a..d720cb5 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -312,7 +312,7 @@ Switch:
 		conf.SetFloatPrec(uint(prec))
 	case "prompt":
 		if p.peek().Type == scan.EOF {
-			p.Printf("%q\n", conf.Format())
+			p.Printf("%q\n", conf.Prompt())
 			break Switch
 		}
 		conf.SetPrompt(p.getString())
-- 
2.43.0


From da12c2cb27050f1146f7945c2e4400febfb7c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:04 +0000
Subject: [PATCH 35/85] fix: )var must write to the configured output

---
 parse/special.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index d720cb5..0d700ca 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -359,9 +359,9 @@ Switch:
 		if value == nil {
 			p.errorf("undefined global variable %q", name)
 		}
-		fmt.Printf("%s = ", name)
+		p.Printf("%s = ", name)
 		put(conf, conf.Output(), value.Value(), false)
-		fmt.Print("\n")
+		p.Println()
 	default:
 		p.errorf(")%s: not recognized", text)
 	}
-- 
2.43.0


From 2ffaa54fedbf592de133f333640fac9cd37f522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:55 +0000
Subject: [PATCH 36/85] fix: an assignment may be the condition of a
 conditional return

---
 value/eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/eval.go b/value/eval.go
index 5827645..ad1c1c8 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -863,7 +863,7 @@ func compare(v Value, i int) int {
 // isTrue reports whether v represents boolean truth. If v is not
 // ultimately a scalar, an error results.
 func isTrue(fnName string, v Value) bool {
-	switch i := v.(type) {
+	switch i := v.Inner().(type) {
 	case Char:
 		return i != 0
 	case Int:
-- 
2.43.0


From b7506cf007b2fcfaf72c3e6f9f8a834455a629bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:19 +0000
Subject: [PATCH 37/85] fix: in a conditional return the condition is read
 before the result is assigned

---
 parse/function.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index 6ae7941..9ec2a98 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -271,7 +271,9 @@ func walk(expr value.Expr, assign bool, f func(value.Expr, bool)) {
 	case *value.UnaryExpr:
 		walk(e.Right, false, f)
 	case *value.CondExpr:
-		walk(e.Cond, false, f)
+		// Two separate expressions; the left is evaluated first.
+		walk(e.Cond.Left, false, f)
+		walk(e.Cond.Right, false, f)
 	case *value.BinaryExpr:
 		walk(e.Right, false, f)
 		walk(e.Left, e.Op == "=", f)
-- 
2.43.0


From ab13770531dd1483d807a08a7fd25d89aaa12f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:02 +0000
Subject: [PATCH 38/85] fix: printing a matrix of nested elements of different
 heights does not crash

---
 value/vector.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/value/vector.go b/value/vector.go
index 4374011..66e2e96 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -254,24 +254,18 @@ func (v *Vector) multiLineSprint(conf *config.Config, allScalars, allChars, spac
 				lastColumn[n] = line.Len()
 			}
 		}
-		// By construction all lines have same length (except for empty lines, which
-		// are never the zeroth line.)
-		cols[i] = lines[0].Len()
-		if len(strs) < len(lines) {
-			// Right-fill the lines below this element.
-			padding := blanks(cols[i] - lines[len(lines)-1].Len())
-			for j := len(strs); j < len(lines); j++ {
-				lines[j].WriteString(padding)
-			}
-		}
 		if doParens {
 			last := len(strs) - 1
 			line := lines[last]
 			line.WriteString(")")
 			lastColumn[last] = line.Len()
-			if line.Len() > cols[i] {
-				cols[i] = line.Len()
-			}
+		}
+		// The lines may differ in length here; right-fill them to line up for the next element.
+		for _, line := range lines {
+			cols[i] = max(cols[i], line.Len())
+		}
+		for _, line := range lines {
+			line.WriteString(blanks(cols[i] - line.Len()))
 		}
 	}
 	s := make([]string, len(lines))
-- 
2.43.0


From 89b3a29d27f5e0f72526f1e320ae1f6e4d250719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:09 +0000
Subject: [PATCH 39/85] fix: encode and decode of empty operands do not crash

---
 value/binary.go | 7 +++++--
 value/sys.go    | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index 80c20aa..fc005ef 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -994,7 +994,7 @@ func init() {
 						Errorf("decode of length %d and shape %s", A.Len(), NewIntVector(B.shape...))
 					}
 					shape := B.shape[1:]
-					elems := newVectorEditor(B.data.Len()/B.shape[0], nil)
+					elems := newVectorEditor(B.ElemSize(), zero)
 					get := func(v *Vector, i int) Value {
 						if v.Len() == 1 {
 							return v.At(0)
@@ -1005,6 +1005,9 @@ func init() {
 					if B.shape[0] > n {
 						n = B.shape[0]
 					}
+					if A.Len() == 0 || B.shape[0] == 0 {
+						n = 0 // Nothing to sum, as in the vector case.
+					}
 					pfor(true, n, elems.Len(), func(lo, hi int) {
 						for j := lo; j < hi; j++ {
 							result := Value(zero)
@@ -1043,7 +1046,7 @@ func init() {
 					// of how modulo arithmetic works.
 					const op = "encode"
 					A, B := u.(*Vector), v.(*Vector)
-					if A.AllChars() {
+					if A.Len() > 0 && A.AllChars() {
 						// Special case for times.
 						return encodeTime(c, A, B)
 					}
diff --git a/value/sys.go b/value/sys.go
index f95ced6..3b164e5 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -185,6 +185,9 @@ func encodeTime(c Context, u, v *Vector) Value {
 		Errorf("illegal left operand %s for encode", u)
 	}
 	// TODO: more than one value
+	if v.Len() == 0 {
+		Errorf("no value to encode as a time")
+	}
 	return timeVec(timeFromValue(c, v.At(0)))
 }
 
-- 
2.43.0


From 8cd5f75c618441a8310458dd16ed5e53ad8eb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:02 +0000
Subject: [PATCH 40/85] fix: reduce large arguments of sin, cos and tan by
 enough digits of pi

---
 value/const.go |  7 +++++++
 value/sin.go   | 41 ++++++++++++++++++-----------------------
 2 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/value/const.go b/value/const.go
index 96e934c..1d25cfd 100644
--- a/value/const.go
+++ b/value/const.go
@@ -81,6 +81,13 @@ func newF(conf *config.Config) *big.Float {
 	return new(big.Float).SetPrec(conf.FloatPrec())
 }
 
+func newFloatPrec(prec uint) *big.Float {
+	return new(big.Float).SetPrec(prec)
+}
+
+// floatFullPi is π to all the bits we have.
+var floatFullPi, _ = newFloatPrec(constPrecisionInBits).SetString(strPi)
+
 func newFloat(c Context) *big.Float {
 	return newF(c.Config())
 }
diff --git a/value/sin.go b/value/sin.go
index d41d1b3..8753ff7 100644
--- a/value/sin.go
+++ b/value/sin.go
@@ -89,7 +89,7 @@ func floatCos(c Context, x *big.Float) *big.Float {
 	if x.IsInf() {
 		Errorf("cosine of infinity")
 	}
-	x = newFloat(c).Set(x) // Do not modify the argument.
+	x = newFloat(c).Abs(x) // Do not modify the argument.
 	twoPiReduce(c, x)
 
 	// cos(x) = 1 - x²/2! + x⁴/4! - ...
@@ -131,31 +131,26 @@ func sincos(name string, c Context, index int, x *big.Float, z *big.Float, exp u
 
 // twoPiReduce guarantees x < 2π, modifying x in place; x is known to be >= 0 coming in.
 func twoPiReduce(c Context, x *big.Float) {
-	// TODO: Is there an easy better algorithm?
-	twoPi := newFloat(c).Set(floatTwo)
-	twoPi.Mul(twoPi, floatPi)
-	// Do something clever(er) if it's large.
+	prec := c.Config().FloatPrec() + 64
+	twoPi := newFloat(c).Mul(floatPi, floatTwo)
+	// The multiple of 2π to subtract has about as many bits as the integer part
+	// of x, so if that is large, π is needed to that many more bits than the result.
 	if x.Cmp(newFloat(c).SetInt64(1000)) > 0 {
-		multiples := make([]*big.Float, 0, 100)
-		sixteen := newFloat(c).SetInt64(16)
-		multiple := newFloat(c).Set(twoPi)
-		for {
-			multiple.Mul(multiple, sixteen)
-			if x.Cmp(multiple) < 0 {
-				break
-			}
-			multiples = append(multiples, newFloat(c).Set(multiple))
-		}
-		// From the right, subtract big multiples.
-		for i := len(multiples) - 1; i >= 0; i-- {
-			multiple := multiples[i]
-			for x.Cmp(multiple) >= 0 {
-				x.Sub(x, multiple)
-			}
+		prec += uint(x.MantExp(nil))
+		if prec > constPrecisionInBits && x.MantExp(nil) > 64 {
+			Errorf("argument too large for the precision of π")
 		}
+		twoPi = newFloatPrec(prec).Mul(floatFullPi, floatTwo)
 	}
-	for x.Cmp(twoPi) >= 0 {
-		x.Sub(x, twoPi)
+	if x.Cmp(twoPi) < 0 {
+		return
+	}
+	n, _ := newFloatPrec(prec).Quo(x, twoPi).Int(nil)
+	multiple := newFloatPrec(prec).SetInt(n)
+	multiple.Mul(multiple, twoPi)
+	x.Set(multiple.Sub(x, multiple))
+	if x.Sign() < 0 {
+		x.Add(x, twoPi)
 	}
 }
 
-- 
2.43.0


From 836d6487137c29ca90c47761d9cd078c2a5e2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 41/85] fix: a product with no second operator does not swallow
 the next character

---
 scan/scan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scan/scan.go b/scan/scan.go
index 7563958..f9114ba 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -417,6 +417,8 @@ func lexOperator(l *Scanner) stateFn {
 				if !l.defined(word) {
 					return l.errorf("%s not an operator", word)
 				}
+			default:
+				l.backup() // No second operator; leave what follows alone.
 			}
 		}
 	}
-- 
2.43.0


From 6cbc66820fca0b52c273f5b6f6f437f2f05b731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:14 +0000
Subject: [PATCH 42/85] fix: check maxbits for shifts, powers of two,
 factorials and combinations

---
 value/bigint.go | 17 +++++++++++++++++
 value/binary.go | 18 +++++++++++-------
 value/unary.go  | 10 +++++++++-
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/value/bigint.go b/value/bigint.go
index dd96492..83bf39c 100644
--- a/value/bigint.go
+++ b/value/bigint.go
@@ -7,6 +7,7 @@ package value
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"strings"
 
@@ -205,3 +206,19 @@ func mustFit(conf *config.Config, n int64) {
 		Errorf("result too large (%d bits, max %d)", n, conf.MaxBits())
 	}
 }
+
+// addBits returns x+y, or a huge value if that overflows. Both are non-negative.
+func addBits(x, y int64) int64 {
+	if x > math.MaxInt64-y {
+		return math.MaxInt64
+	}
+	return x + y
+}
+
+// mulBits returns x*y, or a huge value if that overflows. Both are non-negative.
+func mulBits(x, y int64) int64 {
+	if x != 0 && y > math.MaxInt64/x {
+		return math.MaxInt64
+	}
+	return x * y
+}
diff --git a/value/binary.go b/value/binary.go
index fc005ef..83273f8 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -135,9 +135,10 @@ func bigIntExp(c Context, i, j, k *big.Int) *big.Int {
 	}
 	// "2" is just shift. math/big should do this, really.
 	if j.Cmp(bigIntTwo.Int) == 0 && exp >= 0 {
+		mustFit(c.Config(), addBits(exp, 1))
 		return i.Lsh(big.NewInt(1), uint(exp))
 	}
-	mustFit(c.Config(), int64(j.BitLen())*exp)
+	mustFit(c.Config(), mulBits(int64(j.BitLen()), exp))
 	i.Exp(j, k, nil)
 	return i
 }
@@ -518,12 +519,12 @@ func init() {
 					if a < 0 || b < 0 || a > b {
 						return zero
 					}
-					aFac := factorial(a)
-					bFac := factorial(b)
-					bMinusAFac := factorial(b - a)
-					bFac.Div(bFac, aFac)
-					bFac.Div(bFac, bMinusAFac)
-					return BigInt{bFac}.shrink()
+					// b!/a!(b-a)! is at least (b/k)**k for k the smaller of a and b-a.
+					k := min(a, b-a)
+					mustFit(c.Config(), int64(float64(k)*math.Log2(float64(b)/float64(k))))
+					n := BigInt{new(big.Int).Binomial(b, k)}
+					mustFit(c.Config(), n.BitLen())
+					return n.shrink()
 				},
 			},
 		},
@@ -602,6 +603,9 @@ func init() {
 				bigIntType: func(c Context, u, v Value) Value {
 					i, j := u.(BigInt), v.(BigInt)
 					z := bigInt64(0)
+					if i.Sign() != 0 {
+						mustFit(c.Config(), addBits(i.BitLen(), int64(shiftCount(j))))
+					}
 					z.Lsh(i.Int, shiftCount(j))
 					return z.shrink()
 				},
diff --git a/value/unary.go b/value/unary.go
index 7d22aa7..bed6808 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -7,6 +7,7 @@ package value
 import (
 	"crypto/rand"
 	"fmt"
+	"math"
 	"math/big"
 )
 
@@ -404,7 +405,14 @@ func init() {
 			elementwise: true,
 			fn: [numType]unaryFn{
 				intType: func(c Context, v Value) Value {
-					return BigInt{factorial(int64(v.(Int)))}.shrink()
+					n := int64(v.(Int))
+					if n > 1 {
+						// n! is at least (n/e)**n.
+						mustFit(c.Config(), int64(float64(n)*math.Log2(float64(n)/math.E)))
+					}
+					f := BigInt{factorial(n)}
+					mustFit(c.Config(), f.BitLen())
+					return f.shrink()
 				},
 			},
 		},
-- 
2.43.0


From 4e0e34b596cc5d846eaf8d7b341ebc020a29793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:03 +0000
Subject: [PATCH 43/85] fix: reduction by a bare @ is an error, not a crash

---
 value/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index ad1c1c8..006b075 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -586,6 +586,9 @@ func eachValue(v Value, dim int) iter.Seq[Value] {
 // applying the "each" expansion depending on how many times
 // @ appears on the left and right ends of op.
 func BinaryEach(c Context, lv Value, op string, rv Value) Value {
+	if strings.Trim(op, "@") == "" {
+		Errorf("invalid operator %q", op)
+	}
 	// Count as many @s as possible for the left side.
 	// Must strip at least one if present, but don't have to strip all,
 	// in case we are doing @ of vector of vectors.
-- 
2.43.0


From d9ce0a5b31f6f499a6e35d574a2be63a608109fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 44/85] fix: )save writes nested strings, one-element vectors
 and zero floats so that they read back

---
 parse/save.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index 847c312..c74c34e 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -172,8 +172,8 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 		if val.Sign() == 0 || val.IsInf() {
 			// These have prec 0 and are easy.
 			// They shouldn't appear anyway, but be safe.
-			fmt.Fprintf(out, "%g", val)
-			return
+			fmt.Fprintf(out, "%g", val.Float)
+			break
 		}
 		// TODO The actual value might not have the same prec as
 		// the configuration, so we might not get this right
@@ -186,9 +186,18 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 		fmt.Fprintf(out, "j")
 		put(conf, out, imag, false)
 	case *value.Vector:
+		if val.Len() == 1 {
+			// By itself, the element would be read as a scalar
+			// or, if nested, as the vector or matrix it is.
+			if value.IsScalarType(val.At(0)) {
+				fmt.Fprint(out, "1 rho ")
+			} else {
+				fmt.Fprint(out, "box ")
+			}
+		}
 		if val.AllChars() {
 			fmt.Fprintf(out, "%q", val.Sprint(conf))
-			return
+			break
 		}
 		for i, v := range val.All() {
 			if i > 0 {
@@ -197,8 +206,10 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 			put(conf, out, v, !value.IsScalarType(v))
 		}
 	case *value.Matrix:
-		put(conf, out, value.NewIntVector(val.Shape()...), false)
-		fmt.Fprint(out, " rho ")
+		for _, n := range val.Shape() {
+			fmt.Fprintf(out, "%d ", n)
+		}
+		fmt.Fprint(out, "rho ")
 		put(conf, out, val.Data(), false)
 	default:
 		value.Errorf("internal error: can't save type %T", val)
-- 
2.43.0


From c08e4967133bd2e623188d552647f6ceba91817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:00 +0000
Subject: [PATCH 45/85] fix: )save declares operators used through each,
 reduction and products

---
 parse/function.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/parse/function.go b/parse/function.go
index 9ec2a98..1a94405 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -7,6 +7,7 @@ package parse
 import (
 	"fmt"
 	"slices"
+	"strings"
 
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
@@ -192,19 +193,32 @@ func references(c *exec.Context, body []value.Expr) []exec.OpDef {
 		walk(expr, false, func(expr value.Expr, _ bool) {
 			switch e := expr.(type) {
 			case *value.UnaryExpr:
-				if c.UnaryFn[e.Op] != nil {
-					addReference(&refs, e.Op, false)
+				op := strings.TrimSuffix(e.Op, "%")
+				if len(op) > 1 && (op[len(op)-1] == '/' || op[len(op)-1] == '\\') {
+					// Reduction or scan; the operator is binary.
+					addReferences(c, &refs, op[:len(op)-1], true)
+					break
 				}
+				addReferences(c, &refs, e.Op, false)
 			case *value.BinaryExpr:
-				if c.BinaryFn[e.Op] != nil {
-					addReference(&refs, e.Op, true)
-				}
+				addReferences(c, &refs, e.Op, true)
 			}
 		})
 	}
 	return refs
 }
 
+// addReferences adds the user-defined operators that op, which
+// may have the form f@, @f@ or f.g, is made of.
+func addReferences(c *exec.Context, refs *[]exec.OpDef, op string, isBinary bool) {
+	for _, name := range strings.Split(op, ".") {
+		name = strings.Trim(name, "@")
+		if isBinary && c.BinaryFn[name] != nil || !isBinary && c.UnaryFn[name] != nil {
+			addReference(refs, name, isBinary)
+		}
+	}
+}
+
 func addReference(refs *[]exec.OpDef, name string, isBinary bool) {
 	// If it's already there, ignore. This is n^2 but n is tiny.
 	for _, ref := range *refs {
-- 
2.43.0


From d3892682e5feef2a3d9ba64d75de223f374fd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:06 +0000
Subject: [PATCH 46/85] fix: )get keeps the bases set by the file

---
 parse/special.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse/special.go b/parse/special.go
index 0d700ca..ff9fbcf 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -227,6 +227,14 @@ Switch:
 		} else {
 			p.runFromFile(p.context, p.getString())
 		}
+		// If the file set the base, keep that.
+		i, o := conf.Base()
+		if i != 0 {
+			ibase = i
+		}
+		if o != 0 {
+			obase = o
+		}
 	case "maxbits":
 		if p.peek().Type == scan.EOF {
 			p.Printf("%d\n", conf.MaxBits())
-- 
2.43.0


From 94b4517a7c894493ff959da838eb844a01cda6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:37 +0000
Subject: [PATCH 47/85] fix: )save declares binary and deleted operators so
 that the file can be read

---
 parse/function.go | 16 +++++++++++++---
 parse/save.go     | 19 ++++++++++++++++---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/parse/function.go b/parse/function.go
index 1a94405..ad25c94 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"slices"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
@@ -208,12 +210,20 @@ func references(c *exec.Context, body []value.Expr) []exec.OpDef {
 	return refs
 }
 
-// addReferences adds the user-defined operators that op, which
-// may have the form f@, @f@ or f.g, is made of.
+// addReferences adds the user-defined operators, including any
+// since deleted, that op is made of. It may have the form f@, @f@ or f.g.
 func addReferences(c *exec.Context, refs *[]exec.OpDef, op string, isBinary bool) {
 	for _, name := range strings.Split(op, ".") {
 		name = strings.Trim(name, "@")
-		if isBinary && c.BinaryFn[name] != nil || !isBinary && c.UnaryFn[name] != nil {
+		if r, _ := utf8.DecodeRuneInString(name); r != '_' && !unicode.IsLetter(r) {
+			continue // Not an identifier.
+		}
+		// An operator that is neither user-defined nor builtin was deleted.
+		defined, builtin := c.UnaryFn[name] != nil, value.UnaryOps[name] != nil
+		if isBinary {
+			defined, builtin = c.BinaryFn[name] != nil, value.BinaryOps[name] != nil || name == "o"
+		}
+		if defined || !builtin {
 			addReference(refs, name, isBinary)
 		}
 	}
diff --git a/parse/save.go b/parse/save.go
index c74c34e..2de6ae7 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -90,12 +90,22 @@ func save(c *exec.Context, file string) {
 		} else {
 			fn = c.UnaryFn[def.Name]
 		}
+		var deleted []string // Declarations of operators that no longer exist.
 		for _, ref := range references(c, fn.Body) {
 			if !printed[ref] {
+				decl, exists := ref.Name+" _", c.UnaryFn[ref.Name] != nil
 				if ref.IsBinary {
-					fmt.Fprintf(out, "op _ %s _\n", ref.Name)
-				} else {
-					fmt.Fprintf(out, "op %s _\n", ref.Name)
+					// The arguments must have different names.
+					arg := "a"
+					if ref.Name == arg {
+						arg = "b"
+					}
+					decl, exists = "_ "+ref.Name+" "+arg, c.BinaryFn[ref.Name] != nil
+				}
+				fmt.Fprintf(out, "op %s\n", decl)
+				if !exists {
+					deleted = append(deleted, decl)
+					continue
 				}
 				printed[ref] = true
 			}
@@ -107,6 +117,9 @@ func save(c *exec.Context, file string) {
 			s += "\n"
 		}
 		fmt.Fprintln(out, s)
+		for _, decl := range deleted {
+			fmt.Fprintf(out, "opdelete %s\n", decl)
+		}
 	}
 
 	// Global variables.
-- 
2.43.0


From 051b64e19d4a131cdcd50d27392e1e56d96ec82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:09 +0000
Subject: [PATCH 48/85] fix: a sign near the end of text without a final
 newline is scanned correctly

---
 scan/scan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scan/scan.go b/scan/scan.go
index f9114ba..e4d6328 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -146,14 +146,14 @@ func (l *Scanner) peek() rune {
 // and if we see a newline we don't have an operator.
 func (l *Scanner) peek2() (rune, rune) {
 	pos := l.pos
-	lastWidth := l.lastWidth
+	lastRune, lastWidth := l.lastRune, l.lastWidth
 	r1 := l.next()
 	r2 := r1
 	if r1 != '\n' {
 		r2 = l.next()
 	}
 	l.pos = pos
-	l.lastWidth = lastWidth
+	l.lastRune, l.lastWidth = lastRune, lastWidth
 	return r1, r2
 }
 
-- 
2.43.0


From b7760785f64416ef55883f76b178ceacfff871f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:20 +0000
Subject: [PATCH 49/85] fix: ivy prints the values of a line before executing
 the next

---
 run/run.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/run/run.go b/run/run.go
index 4ff4c3d..e426f0f 100644
--- a/run/run.go
+++ b/run/run.go
@@ -28,9 +28,10 @@ func init() {
 // IvyEval is the function called by value/unaryIvy to implement the ivy (eval) operation.
 // It is exported but is not intended to be used outside of ivy.
 func IvyEval(context value.Context, str string) value.Value {
-	scanner := scan.New(context, "<ivy>", strings.NewReader(str))
+	reader := strings.NewReader(str)
+	scanner := scan.New(context, "<ivy>", reader)
 	parser := parse.NewParser("<ivy>", scanner, context)
-	v := eval(parser, context)
+	v := eval(parser, context, func() bool { return reader.Len() > 0 })
 	if v == nil {
 		v = value.NewIntVector() // Must return something, so make it an empty vector.
 	}
@@ -105,26 +106,26 @@ func Run(p *parse.Parser, context value.Context, interactive bool) (success bool
 // By last we mean the last expression of the last evaluation.
 // (Expressions are separated by ; in the input.)
 // It is always called from (somewhere below) run, so if it errors out the recover in
-// run will catch it.
-func eval(p *parse.Parser, context value.Context) value.Value {
+// run will catch it. The more function reports whether there is input after the line just
+// read; values are printed before the next line is executed.
+func eval(p *parse.Parser, context value.Context, more func() bool) value.Value {
 	conf := context.Config()
 	writer := conf.Output()
-	var prevValues []value.Value
 	for {
 		exprs, ok := p.Line()
 		var values []value.Value
 		if exprs != nil {
 			values = context.Eval(exprs)
 		}
-		if !ok {
-			if len(prevValues) == 0 {
-				return nil
-			}
-			printValues(conf, writer, prevValues[:len(prevValues)-1])
-			return prevValues[len(prevValues)-1]
+		if ok && more() {
+			printValues(conf, writer, values)
+			continue
+		}
+		if len(values) == 0 {
+			return nil
 		}
-		printValues(conf, writer, prevValues)
-		prevValues = values
+		printValues(conf, writer, values[:len(values)-1])
+		return values[len(values)-1]
 	}
 }
 
-- 
2.43.0


From d0a3f86c7edea793f1e5613ddba0be304f510967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:24 +0000
Subject: [PATCH 50/85] fix: iota with a large origin does not exhaust memory

---
 value/index.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/value/index.go b/value/index.go
index 32a69ce..46a17ea 100644
--- a/value/index.go
+++ b/value/index.go
@@ -433,6 +433,14 @@ var (
 // constIota generates a slice equivalent to the result of "iota n".
 // The returned value's elements are shared and must not be overwritten.
 func constIota(origin, n int) []Value {
+	if origin > 1e4 {
+		// Don't build a huge table just to use the end of it.
+		result := make([]Value, n)
+		for i := range result {
+			result[i] = Int(origin + i)
+		}
+		return result
+	}
 	for {
 		iotaLock.RLock()
 		if len(staticIota) >= origin+n {
-- 
2.43.0


From 3bebc9cf380eb2ec42c27a0c221cb37a780a4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:41 +0000
Subject: [PATCH 51/85] fix: floor and ceil respect maxbits; maxdigits counts
 digits exactly

---
 value/bigint.go | 20 +++++++++++++++++---
 value/unary.go  |  4 ++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/value/bigint.go b/value/bigint.go
index 83bf39c..60d2125 100644
--- a/value/bigint.go
+++ b/value/bigint.go
@@ -43,10 +43,8 @@ func (i BigInt) String() string {
 }
 
 func (i BigInt) Sprint(conf *config.Config) string {
-	bitLen := i.BitLen()
 	format := conf.Format()
-	var maxBits = (uint64(conf.MaxDigits()) * 33222) / 10000 // log 10 / log 2 is 3.32192809489
-	if uint64(bitLen) > maxBits && maxBits != 0 {
+	if tooManyDigits(conf, i.Int) {
 		// Print in floating point.
 		return BigFloat{newF(conf).SetInt(i.Int)}.Sprint(conf)
 	}
@@ -75,6 +73,22 @@ func (i BigInt) Sprint(conf *config.Config) string {
 	return ""
 }
 
+// tooManyDigits reports whether i has more than conf.MaxDigits decimal digits.
+func tooManyDigits(conf *config.Config, i *big.Int) bool {
+	max := uint64(conf.MaxDigits())
+	bitLen := uint64(i.BitLen())
+	// The log base 2 of 10 is 3.32192809489. Only if the number of bits is
+	// close to the limit do we need to look at the value.
+	switch {
+	case max == 0 || bitLen <= max*33219/10000:
+		return false
+	case bitLen > max*33220/10000+1:
+		return true
+	}
+	limit := new(big.Int).Exp(bigIntTen, new(big.Int).SetUint64(max), nil)
+	return i.CmpAbs(limit) >= 0
+}
+
 func (i BigInt) ProgString() string {
 	return fmt.Sprintf("%d", i.Int)
 }
diff --git a/value/unary.go b/value/unary.go
index bed6808..657ccc5 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -567,6 +567,7 @@ func init() {
 					if f.Float.IsInf() {
 						Errorf("floor of %s", v.Sprint(c.Config()))
 					}
+					mustFit(c.Config(), int64(f.MantExp(nil)))
 					i, acc := f.Int(nil)
 					switch acc {
 					case big.Exact, big.Below:
@@ -574,6 +575,7 @@ func init() {
 					case big.Above:
 						i.Sub(i, bigIntOne.Int)
 					}
+					mustFit(c.Config(), int64(i.BitLen())) // It may have been rounded up.
 					return BigInt{i}.shrink()
 				},
 				complexType: func(c Context, v Value) Value {
@@ -614,6 +616,7 @@ func init() {
 					if f.Float.IsInf() {
 						Errorf("ceil of %s", v.Sprint(c.Config()))
 					}
+					mustFit(c.Config(), int64(f.MantExp(nil)))
 					i, acc := f.Int(nil)
 					switch acc {
 					case big.Exact, big.Above:
@@ -621,6 +624,7 @@ func init() {
 					case big.Below:
 						i.Add(i, bigIntOne.Int)
 					}
+					mustFit(c.Config(), int64(i.BitLen())) // It may have been rounded up.
 					return BigInt{i}.shrink()
 				},
 				complexType: func(c Context, v Value) Value {
-- 
2.43.0


From 7fe3da83068d2d2c089975d0b7496263e6919d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:56 +0000
Subject: [PATCH 52/85] fix: find the verb of a format with a leading %%

---
 value/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value/format.go b/value/format.go
index 4dd35f0..b15909a 100644
--- a/value/format.go
+++ b/value/format.go
@@ -133,7 +133,8 @@ Loop:
 			continue
 		// Special case for %%: go on to next verb.
 		case '%':
-			return verbIndex(s[i+1:])
+			skip := percent + 1 + i + 1
+			return skip + verbIndex(format[skip:])
 		case 'b', 'c', 'd', 'e', 'E', 'f', 'F', 'g', 'G', 'o', 'O', 'q', 's', 't', 'T', 'U', 'v', 'x', 'X':
 			return percent + 1 + i
 		default:
-- 
2.43.0


From 8f6c7d99a8d71d92348000bfc9c76b669f1a5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:06 +0000
Subject: [PATCH 53/85] fix: unary text accepts a character

---
 value/unary.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/value/unary.go b/value/unary.go
index 657ccc5..e7996ed 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -1197,6 +1197,7 @@ func init() {
 			name: "text",
 			fn: [numType]unaryFn{
 				intType:      func(c Context, v Value) Value { return text(c, v) },
+				charType:     func(c Context, v Value) Value { return text(c, v) },
 				bigIntType:   func(c Context, v Value) Value { return text(c, v) },
 				bigRatType:   func(c Context, v Value) Value { return text(c, v) },
 				bigFloatType: func(c Context, v Value) Value { return text(c, v) },
-- 
2.43.0


From 2a4469ec0c68f0f8b2836277f90d3d91d434335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:17 +0000
Subject: [PATCH 54/85] fix: format the characters of a string as integers for
 %b, %o and %O

---
 value/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/format.go b/value/format.go
index b15909a..906baab 100644
--- a/value/format.go
+++ b/value/format.go
@@ -39,7 +39,7 @@ func fmtText(c Context, u, v Value) Value {
 		b.WriteByte('j')
 		formatOne(c, &b, format, verb, val.imag)
 	case *Vector:
-		if val.AllChars() && strings.ContainsRune("boOqsvxX", rune(verb)) {
+		if val.AllChars() && strings.ContainsRune("qsvxX", rune(verb)) {
 			// Print the string as a unit.
 			fmt.Fprintf(&b, format, val.Sprint(debugConf))
 		} else {
-- 
2.43.0


From 41d29b1d2a2a3d0663575b791da0260f04f35573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:47 +0000
Subject: [PATCH 55/85] fix: text reports nested values it cannot format

---
 value/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/format.go b/value/format.go
index 906baab..b4b36ba 100644
--- a/value/format.go
+++ b/value/format.go
@@ -149,6 +149,9 @@ Loop:
 // How it does this depends on the format, permitting us to use %d on
 // floats and rationals, for example.
 func formatOne(c Context, w io.Writer, format string, verb byte, v Value) {
+	if !IsScalarType(v) && verb != 'v' {
+		Errorf("cannot format nested value '%s' with %%%c", v.Sprint(c.Config()), verb)
+	}
 	switch verb {
 	case 'T': // Time.
 		// Maintain flags etc. but turn T into s.
-- 
2.43.0


From c0c0ea7b697f78cc64738dc733432fda44cc4948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:57 +0000
Subject: [PATCH 56/85] fix: a negative decimal count in text is an illegal
 format

---
 value/format.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/value/format.go b/value/format.go
index b4b36ba..7618b6e 100644
--- a/value/format.go
+++ b/value/format.go
@@ -62,6 +62,9 @@ func fmtText(c Context, u, v Value) Value {
 func formatString(c *config.Config, u Value) (string, byte) {
 	switch val := u.(type) {
 	case Int:
+		if val < 0 {
+			break
+		}
 		return fmt.Sprintf("%%.%df", val), 'f'
 	case Char:
 		s := fmt.Sprintf("%%%c", val)
@@ -80,7 +83,7 @@ func formatString(c *config.Config, u Value) (string, byte) {
 		case 1:
 			// Decimal count only.
 			dec, ok := val.At(0).(Int)
-			if ok {
+			if ok && dec >= 0 {
 				return fmt.Sprintf("%%.%df", dec), 'f'
 			}
 		case 3:
@@ -99,7 +102,7 @@ func formatString(c *config.Config, u Value) (string, byte) {
 			// Width and decimal count.
 			wid, ok1 := val.At(0).(Int)
 			dec, ok2 := val.At(1).(Int)
-			if ok1 && ok2 {
+			if ok1 && ok2 && dec >= 0 {
 				return fmt.Sprintf("%%%d.%d%c", wid, dec, char), byte(char)
 			}
 		}
-- 
2.43.0


From 121ffde7d6916e43c9e08dee9764ac42386d73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:39 +0000
Subject: [PATCH 57/85] fix: align columns of matrices and nested vectors by
 characters, not bytes

---
 value/matrix.go | 19 ++++++++++++-------
 value/vector.go | 42 ++++++++++++++++++++++++++----------------
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index a281321..a0b5d4c 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -12,6 +12,7 @@ import (
 	"slices"
 	"sort"
 	"strings"
+	"unicode/utf8"
 
 	"robpike.io/ivy/config"
 )
@@ -94,21 +95,25 @@ func (m *Matrix) elemStrs(conf *config.Config) ([][]string, *widths) {
 	// when needed in write2d.
 	v := m.data
 	lines, cols := v.multiLineSprint(conf, v.allScalars(), v.AllChars(), !withSpaces, !trimTrailingSpace)
+	chars := make([][]rune, len(lines))
+	for j, line := range lines {
+		chars[j] = []rune(line)
+	}
 	strs := make([][]string, m.data.Len())
 	wid := widths{}
 	lastDim := m.shape[len(m.shape)-1]
 	for i := range m.data.All() {
 		rows := make([]string, len(lines))
-		for j, line := range lines {
-			if line == "" { // Blank line between blocks (rows[j] is already empty).
+		for j, line := range chars {
+			if len(line) == 0 { // Blank line between blocks (rows[j] is already empty).
 				continue
 			}
 			if i == 0 {
-				rows[j] = line[:cols[0]]
-				wid.addColumn(0, len(rows[j]))
+				rows[j] = string(line[:cols[0]])
+				wid.addColumn(0, cols[0])
 			} else {
-				rows[j] = line[cols[i-1]:cols[i]]
-				wid.addColumn(i%lastDim, len(rows[j]))
+				rows[j] = string(line[cols[i-1]:cols[i]])
+				wid.addColumn(i%lastDim, cols[i]-cols[i-1])
 			}
 		}
 		strs[i] = rows
@@ -150,7 +155,7 @@ func (m *Matrix) write2d(b *bytes.Buffer, elems [][]string, nested bool, wid *wi
 			}
 			for col := 0; col < ncols; col++ {
 				str := elems[index+col][line]
-				b.WriteString(blanks(wid.column(col) - len(str)))
+				b.WriteString(blanks(wid.column(col) - utf8.RuneCountInString(str)))
 				b.WriteString(str)
 				if (col+1)%ncols != 0 {
 					b.WriteString(" ")
diff --git a/value/vector.go b/value/vector.go
index 66e2e96..33cfa99 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -5,13 +5,12 @@
 package value
 
 import (
-	"bytes"
-	"fmt"
 	"iter"
 	"math"
 	"sort"
 	"strings"
 	"sync"
+	"unicode/utf8"
 
 	"robpike.io/ivy/config"
 	"robpike.io/ivy/value/persist"
@@ -152,25 +151,36 @@ const (
 // Flags report whether parentheses will be needed and
 // whether to put spaces between the elements.
 func (v *Vector) oneLineSprint(conf *config.Config, parens, spaces bool) (string, []int) {
-	var b bytes.Buffer
+	var b textLine
 	if parens {
 		spaces = true
 	}
 	cols := make([]int, v.Len())
 	for i, elem := range v.All() {
 		if spaces && i > 0 {
-			fmt.Fprint(&b, " ")
+			b.WriteString(" ")
 		}
 		if parens && !IsScalarType(elem) {
-			fmt.Fprintf(&b, "(%s)", elem.Sprint(conf))
+			b.WriteString("(" + elem.Sprint(conf) + ")")
 		} else {
-			fmt.Fprintf(&b, "%s", elem.Sprint(conf))
+			b.WriteString(elem.Sprint(conf))
 		}
-		cols[i] = b.Len()
+		cols[i] = b.wid
 	}
 	return b.String(), cols
 }
 
+// A textLine is a line of output being built that knows its width in characters.
+type textLine struct {
+	strings.Builder
+	wid int
+}
+
+func (t *textLine) WriteString(s string) {
+	t.Builder.WriteString(s)
+	t.wid += utf8.RuneCountInString(s)
+}
+
 // multiLineSprint formats a vector that may span multiple lines,
 // returning the result as a slice of strings, one per line.
 // Lots of flags:
@@ -180,10 +190,10 @@ func (v *Vector) oneLineSprint(conf *config.Config, parens, spaces bool) (string
 //	spaces: put spaces between elements.
 //	trim: remove trailing spaces from each line.
 //
-// If trim is not set, the lines are all of equal length, bytewise.
+// If trim is not set, the lines are all of equal length, in characters.
 //
 // The return values are the printed lines and, along the other axis,
-// byte positions after each column.
+// character positions after each column.
 func (v *Vector) multiLineSprint(conf *config.Config, allScalars, allChars, spaces, trim bool) ([]string, []int) {
 	if allScalars {
 		// Easy case, might as well be efficient.
@@ -199,26 +209,26 @@ func (v *Vector) multiLineSprint(conf *config.Config, allScalars, allChars, spac
 		b := strings.Builder{}
 		for i, c := range v.All() {
 			b.WriteRune(rune(c.Inner().(Char)))
-			cols[i] = b.Len()
+			cols[i] = i + 1
 		}
 		return strings.Split(b.String(), "\n"), cols // We shouldn't need cols, but be safe.
 	}
-	lines := []*strings.Builder{}
+	lines := []*textLine{}
 	lastColumn := []int{} // For each line, last column with a non-padding character.
 	for i, elem := range v.All() {
 		strs := strings.Split(elem.Sprint(conf), "\n")
 		if len(strs) > len(lines) {
 			wid := 0
 			for _, line := range lines {
-				if line.Len() > wid {
-					wid = line.Len()
+				if line.wid > wid {
+					wid = line.wid
 				}
 			}
 			leading := blanks(wid)
 			for j := range strs {
 				if j >= len(lines) {
 					lastColumn = append(lastColumn, 0)
-					lines = append(lines, &strings.Builder{})
+					lines = append(lines, &textLine{})
 					if j > 0 {
 						lines[j].WriteString(leading)
 					}
@@ -262,10 +272,10 @@ func (v *Vector) multiLineSprint(conf *config.Config, allScalars, allChars, spac
 		}
 		// The lines may differ in length here; right-fill them to line up for the next element.
 		for _, line := range lines {
-			cols[i] = max(cols[i], line.Len())
+			cols[i] = max(cols[i], line.wid)
 		}
 		for _, line := range lines {
-			line.WriteString(blanks(cols[i] - line.Len()))
+			line.WriteString(blanks(cols[i] - line.wid))
 		}
 	}
 	s := make([]string, len(lines))
-- 
2.43.0


From 30e1a2fc330289c0d1935c3fcf3aa161f5c2c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 58/85] fix: built-in operators do not use the user's
 redefinitions of others

---
 value/complex.go | 7 ++++---
 value/eval.go    | 4 ++--
 value/unary.go   | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/value/complex.go b/value/complex.go
index d254845..8da0668 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -193,9 +193,10 @@ func (c Complex) div(ctx Context, d Complex) Complex {
 func (c Complex) floor(ctx Context) Complex {
 	r := c.real
 	i := c.imag
-	b := NewComplex(ctx.EvalUnary("floor", r), ctx.EvalUnary("floor", i))
-	x := ctx.EvalBinary(r, "mod", one)
-	y := ctx.EvalBinary(i, "mod", one)
+	// Call the built-ins directly; the user may have redefined the names.
+	b := NewComplex(UnaryOps["floor"].EvalUnary(ctx, r), UnaryOps["floor"].EvalUnary(ctx, i))
+	x := BinaryOps["mod"].EvalBinary(ctx, r, one)
+	y := BinaryOps["mod"].EvalBinary(ctx, i, one)
 	if isTrue("floor", ctx.EvalBinary(one, ">", ctx.EvalBinary(x, "+", y))) {
 		return b
 	}
diff --git a/value/eval.go b/value/eval.go
index 006b075..4781987 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -892,9 +892,9 @@ func isTrue(fnName string, v Value) bool {
 	return false
 }
 
-// sgn is a wrapper for calling "sgn v".
+// sgn is a wrapper for calling the built-in "sgn v".
 func sgn(c Context, v Value) int {
-	return int(c.EvalUnary("sgn", v).(Int))
+	return int(UnaryOps["sgn"].EvalUnary(c, v).(Int))
 }
 
 // inverse returns 1/v for any scalar value, errors otherwise.
diff --git a/value/unary.go b/value/unary.go
index e7996ed..805448c 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -832,7 +832,7 @@ func init() {
 					return NewVectorSeq(flatten(v.(*Vector)))
 				},
 				matrixType: func(c Context, v Value) Value {
-					return c.EvalUnary("flatten", v.(*Matrix).data)
+					return NewVectorSeq(flatten(v.(*Matrix).data))
 				},
 			},
 		},
-- 
2.43.0


From a6e74f9b475cd20227effadf901abfe7a9a23fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 59/85] fix: inv exchanges rows when there is a zero on the
 diagonal

---
 value/matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value/matrix.go b/value/matrix.go
index a0b5d4c..87edbce 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1137,6 +1137,10 @@ func (m *Matrix) inverse(c Context) Value {
 
 	// Convert left half to the identity matrix using whole-row operations.
 	for x := 0; x < dim; x++ {
+		// If there is a zero on the diagonal, bring up a row without one.
+		for y := x + 1; y < dim && isZero(t[x][x]); y++ {
+			t[x], t[y] = t[y], t[x]
+		}
 		for y := 0; y < dim; y++ {
 			thisRow := t[y]
 			val := thisRow[x]
-- 
2.43.0


From bcaa7f90ac075ca0395f7ae812c2837788adb71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 60/85] fix: reject inv of a matrix of more than three
 dimensions

---
 value/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/matrix.go b/value/matrix.go
index 87edbce..77d77fb 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1107,7 +1107,7 @@ func (m *Matrix) inverse(c Context) Value {
 		return NewMatrix(m.shape, m.data.inverse(c).(*Vector))
 	case 2:
 		// OK
-	case 3:
+	default:
 		Errorf("cannot compute inverse of matrix with dimension > 2")
 	}
 	dim := m.shape[0]
-- 
2.43.0


From 7e252de2302b3321950ff7a1c7a557b4658db3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 61/85] fix: inv of a one-element vector

---
 value/eval.go   | 18 ------------------
 value/vector.go |  4 +---
 2 files changed, 1 insertion(+), 21 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 4781987..38292f8 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -897,24 +897,6 @@ func sgn(c Context, v Value) int {
 	return int(UnaryOps["sgn"].EvalUnary(c, v).(Int))
 }
 
-// inverse returns 1/v for any scalar value, errors otherwise.
-func inverse(c Context, v Value) Value {
-	switch v := v.(type) {
-	case Int:
-		return v.inverse()
-	case BigInt:
-		return v.inverse()
-	case BigRat:
-		return v.inverse()
-	case BigFloat:
-		return v.inverse()
-	case Complex:
-		return v.inverse(c)
-	}
-	Errorf("inverse of non-scalar %s", v)
-	return zero
-}
-
 func mod(c Context, a, b Value) Value {
 	_, rem := QuoRem("mod", c, a, b)
 	return rem
diff --git a/value/vector.go b/value/vector.go
index 33cfa99..da561bf 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -566,9 +566,7 @@ func (v *Vector) inverse(c Context) Value {
 	if v.Len() == 0 {
 		Errorf("inverse of empty vector")
 	}
-	if v.Len() == 1 {
-		return inverse(c, v)
-	}
+
 	// We could do this evaluation using "conj" and "+.*" but avoid the overhead.
 	conj := v.edit()
 	for i, x := range conj.All() {
-- 
2.43.0


From 92e8c0a302b117470d1d5003cfcaa6d84710cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 62/85] fix: ? counts from the origin for large operands too

---
 value/binary.go |  2 +-
 value/unary.go  | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index 83273f8..a2ed2c7 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -946,7 +946,7 @@ func init() {
 					origin := c.Config().Origin()
 					res := newVectorEditor(int(A), nil)
 					for i := range res.Len() {
-						res.Set(i, Int(ints[i]+origin))
+						res.Set(i, Int(ints[i]+origin).maybeBig())
 					}
 					return res.Publish()
 				},
diff --git a/value/unary.go b/value/unary.go
index 805448c..4ecccad 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -178,13 +178,19 @@ func init() {
 					c.Config().LockRandom()
 					res := Int(c.Config().Random().Int64N(int64(i)))
 					c.Config().UnlockRandom()
-					return Int(c.Config().Origin()) + res
+					return (Int(c.Config().Origin()) + res).maybeBig()
 				},
 				bigIntType: func(c Context, v Value) Value {
 					if v.(BigInt).Sign() <= 0 {
 						Errorf("illegal roll value %v", v)
 					}
-					return unaryBigIntOp(c, bigIntRand, v)
+					// Count from the origin.
+					origin := c.Config().BigOrigin()
+					n := v.(BigInt).Int
+					i := bigIntRand(c, new(big.Int), n)
+					i.Sub(i, origin)
+					i.Mod(i, n)
+					return BigInt{i.Add(i, origin)}.shrink()
 				},
 			},
 		},
-- 
2.43.0


From a8dbe487d9d4b50888bd58abc32a0f23e84ef20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:09 +0000
Subject: [PATCH 63/85] fix: rand yields a value of the configured precision,
 below its operand

---
 value/unary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/unary.go b/value/unary.go
index 4ecccad..0649df2 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -157,8 +157,8 @@ func bigFloatRand(c Context, f *big.Float) Value {
 	randInt := big.NewInt(0)
 	bigIntRand(c, randInt, max)
 	// Make it a float and normalize it.
-	x := big.NewFloat(0).SetInt(randInt)
-	x.Quo(x, big.NewFloat(0).SetInt(max))
+	x := newFloat(c).SetInt(randInt)
+	x.Quo(x, new(big.Float).SetInt(max)) // The divisor is exact.
 	// Finally, scale it up to [0, f).
 	x.Mul(x, f)
 	return BigFloat{x}
-- 
2.43.0


From 833be7fb0cbcc90adae2e315fcc423329c343773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:00 +0000
Subject: [PATCH 64/85] fix: 'T' decode leaves its operand alone

---
 value/sys.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index 3b164e5..d633193 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -288,10 +288,11 @@ func decodeTime(c Context, u, v *Vector) Value {
 func secNsec(fs *big.Float) (sec, nsec int64) {
 	var s big.Int
 	fs.Int(&s)
-	fs.Sub(fs, big.NewFloat(0).SetInt(&s))
-	fs.Mul(fs, big.NewFloat(1e9))
-	fs.Add(fs, big.NewFloat(0.5))
-	ns, _ := fs.Int64()
+	var frac big.Float // Leave fs, which may be the user's value, alone.
+	frac.Sub(fs, big.NewFloat(0).SetInt(&s))
+	frac.Mul(&frac, big.NewFloat(1e9))
+	frac.Add(&frac, big.NewFloat(0.5))
+	ns, _ := frac.Int64()
 	return s.Int64(), ns
 }
 
-- 
2.43.0


From 0bed822ff004ef893f235fff72cdd018f98fdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:10 +0000
Subject: [PATCH 65/85] fix: round negative fractions of a second to the
 nearest nanosecond

---
 value/sys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/sys.go b/value/sys.go
index d633193..72e9999 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -291,7 +291,7 @@ func secNsec(fs *big.Float) (sec, nsec int64) {
 	var frac big.Float // Leave fs, which may be the user's value, alone.
 	frac.Sub(fs, big.NewFloat(0).SetInt(&s))
 	frac.Mul(&frac, big.NewFloat(1e9))
-	frac.Add(&frac, big.NewFloat(0.5))
+	frac.Add(&frac, big.NewFloat(math.Copysign(0.5, float64(frac.Sign()))))
 	ns, _ := frac.Int64()
 	return s.Int64(), ns
 }
-- 
2.43.0


From 1894dc4769503c366cf9cb9c76c237d6111227ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 66/85] fix: 'T' decode always honors the offset in the time
 vector

---
 value/sys.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index 72e9999..6a59860 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -213,7 +213,6 @@ func decodeTime(c Context, u, v *Vector) Value {
 	}
 	year, month, day, hour, min := 0, 1, 1, 0, 0
 	sec, nsec := int64(0), int64(0)
-	now := time.Now()
 	loc := c.Config().Location()
 	toInt := func(v Value) int {
 		i, ok := v.(Int)
@@ -231,12 +230,9 @@ func decodeTime(c Context, u, v *Vector) Value {
 		Errorf("invalid time vector %s", v)
 	case 7:
 		offset := toInt(v.At(6))
-		_, nowOffset := now.Zone()
-		if offset != nowOffset {
-			hour := offset / 3600
-			min := (offset - (3600 * hour)) / 60
-			loc = time.FixedZone(fmt.Sprintf("%d:%02d", hour, min), offset)
-		}
+		hour := offset / 3600
+		min := (offset - (3600 * hour)) / 60
+		loc = time.FixedZone(fmt.Sprintf("%d:%02d", hour, min), offset)
 		fallthrough
 	case 6:
 		switch s := v.At(5).(type) {
-- 
2.43.0


From faf3f7bde12f8a26230b3660046d7d9bb956e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:42 +0000
Subject: [PATCH 67/85] fix: use the rules of the time zone at the date,
 whatever its name

---
 config/config.go | 28 +++++++++++++---------------
 value/sys.go     |  3 ++-
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/config/config.go b/config/config.go
index 7a020e7..a269dea 100644
--- a/config/config.go
+++ b/config/config.go
@@ -409,24 +409,26 @@ func (c *Config) SetMobile(mobile bool) {
 
 // TimeZone returns the default time zone name.
 func (c *Config) TimeZone() string {
+	c.init()
 	return c.timeZone
 }
 
 // Location returns the default location.
 func (c *Config) Location() *time.Location {
+	c.init()
 	return c.location
 }
 
-// SetLocation sets the time zone (and associated location) to the named location at the current time.
+// SetLocation sets the time zone (and associated location) to the named location.
 func (c *Config) SetLocation(zone string) error {
 	// Verify it exists
-	loc, err := loadLocation(time.Now(), zone)
+	name, loc, err := loadLocation(zone)
 	if err != nil {
 		return err
 	}
 	c.init()
 	c.location = loc
-	c.timeZone, _ = time.Now().In(loc).Zone()
+	c.timeZone = name
 	return nil
 }
 
@@ -434,12 +436,9 @@ func (c *Config) SetLocation(zone string) error {
 // configured time zone, considering Daylight Savings Time and similar
 // irregularities.
 func (c *Config) LocationAt(t time.Time) *time.Location {
-	loc, err := loadLocation(t, c.timeZone)
-	if err != nil {
-		fmt.Fprintf(c.errOutput, "%s: %v\n", c.timeZone, err)
-		return t.Location()
-	}
-	return loc
+	c.init()
+	_, offset := t.In(c.location).Zone()
+	return time.FixedZone(c.timeZone, offset)
 }
 
 // Time zone management adapted from robpike.io/cmd/now/now.c
@@ -448,8 +447,8 @@ func (c *Config) LocationAt(t time.Time) *time.Location {
 const timeZoneDirectory = "/usr/share/zoneinfo/"
 
 // loadLocation converts a name such as "GMT" or "Europe/London" to a time zone location,
-// returning the location data for that instant in that time zone.
-func loadLocation(t time.Time, zone string) (*time.Location, error) {
+// returning the name to show the user and the location, with its full set of rules.
+func loadLocation(zone string) (string, *time.Location, error) {
 	stdZone := zone // The name from the file system, like "Europe/London"
 	if tz, ok := timeZone[zone]; ok {
 		stdZone = tz
@@ -465,16 +464,15 @@ func loadLocation(t time.Time, zone string) (*time.Location, error) {
 		// See if there's a file with that name in /usr/share/zoneinfo
 		files, _ := filepath.Glob(timeZoneDirectory + "/*/" + stdZone)
 		if len(files) == 0 {
-			return nil, fmt.Errorf("no such location %s", zone)
+			return "", nil, fmt.Errorf("no such location %s", zone)
 		}
 		// We always use the first match. Worth complaining if there are more?
 		loc, err = time.LoadLocation(files[0][len(timeZoneDirectory):])
 		if err != nil {
-			return nil, err
+			return "", nil, err
 		}
 	}
-	_, offset := t.In(loc).Zone()
-	return time.FixedZone(zone, offset), nil
+	return zone, loc, nil
 }
 
 // An incomplete map of common names to IANA names, from /usr/share/zoneinfo
diff --git a/value/sys.go b/value/sys.go
index 6a59860..c68387f 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -104,7 +104,8 @@ var sys1 = map[string]func(conf *config.Config) Value{
 		return edit.Publish()
 	},
 	"date": func(conf *config.Config) Value {
-		return newCharVector(time.Now().In(conf.Location()).Format(time.UnixDate))
+		now := time.Now()
+		return newCharVector(now.In(conf.LocationAt(now)).Format(time.UnixDate))
 	},
 	"format": func(conf *config.Config) Value {
 		return newCharVector(fmt.Sprintf("%q", conf.Format()))
-- 
2.43.0


From 7111af63b508d74e419b8706ef3b2b56ba4de665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 68/85] fix: accept time zones in lower case, as intended

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index a269dea..7fd5b46 100644
--- a/config/config.go
+++ b/config/config.go
@@ -460,6 +460,7 @@ func loadLocation(zone string) (string, *time.Location, error) {
 		// Pure ASCII, but OK. Allow us to say "paris" as well as "Paris".
 		if len(stdZone) > 0 && 'a' <= zone[0] && zone[0] <= 'z' {
 			zone = string(zone[0]+'A'-'a') + string(zone[1:])
+			stdZone = zone
 		}
 		// See if there's a file with that name in /usr/share/zoneinfo
 		files, _ := filepath.Glob(timeZoneDirectory + "/*/" + stdZone)
-- 
2.43.0


From 814d0e235671f1555885349d4334fdd666912e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:25 +0000
Subject: [PATCH 69/85] fix: 'T' decode yields a value of the configured
 precision

---
 value/sys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/value/sys.go b/value/sys.go
index c68387f..d63c28d 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -274,6 +274,7 @@ func decodeTime(c Context, u, v *Vector) Value {
 	t := time.Date(year, time.Month(month), day, hour, min, int(sec), 0, loc)
 	t = t.In(c.Config().LocationAt(t))
 	var s, tmp big.Float
+	s.SetPrec(c.Config().FloatPrec()) // The default of 64 bits is too few for nanoseconds in distant years.
 	s.SetInt64(t.UnixMilli())
 	s.Mul(&s, tmp.SetInt64(1e6))
 	s.Add(&s, tmp.SetInt64(nsec))
-- 
2.43.0


From 1a0dcf9e79ab41975c6fbc8777797d20d890f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:56 +0000
Subject: [PATCH 70/85] fix: report times out of range rather than wrong ones

---
 value/sys.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index d63c28d..e900670 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -221,7 +221,8 @@ func decodeTime(c Context, u, v *Vector) Value {
 			return int(i)
 		}
 		b, ok := v.(BigInt)
-		if !ok || !b.IsInt64() {
+		// The bound makes sure that package time does not overflow.
+		if !ok || !b.IsInt64() || b.Int64() < -1e11 || 1e11 < b.Int64() {
 			Errorf("illegal right operand %s in decode", v)
 		}
 		return int(b.Int64())
@@ -253,6 +254,7 @@ func decodeTime(c Context, u, v *Vector) Value {
 		case BigFloat:
 			sec, nsec = secNsec(s.Float)
 		}
+		checkTime(sec)
 		fallthrough
 	case 5:
 		min = toInt(v.At(4))
@@ -272,6 +274,7 @@ func decodeTime(c Context, u, v *Vector) Value {
 	// time.Time values can only extract int64s for UnixNano, which limits the range too much.
 	// So we use UnixMilli, which spans a big enough range, and add the nanoseconds manually.
 	t := time.Date(year, time.Month(month), day, hour, min, int(sec), 0, loc)
+	checkTime(t.Unix())
 	t = t.In(c.Config().LocationAt(t))
 	var s, tmp big.Float
 	s.SetPrec(c.Config().FloatPrec()) // The default of 64 bits is too few for nanoseconds in distant years.
@@ -291,16 +294,29 @@ func secNsec(fs *big.Float) (sec, nsec int64) {
 	frac.Mul(&frac, big.NewFloat(1e9))
 	frac.Add(&frac, big.NewFloat(math.Copysign(0.5, float64(frac.Sign()))))
 	ns, _ := frac.Int64()
+	if !s.IsInt64() {
+		Errorf("time out of range")
+	}
 	return s.Int64(), ns
 }
 
+// checkTime verifies that the seconds value is within the range of times we handle,
+// about 292 million years either side of 1970.
+func checkTime(sec int64) {
+	if sec < math.MinInt64/1000 || math.MaxInt64/1000 < sec {
+		Errorf("time out of range")
+	}
+}
+
 // timeFromValue converts a seconds value into a time.Time, for
 // the 'text' operator.
 func timeFromValue(c Context, v Value) time.Time {
 	conf := c.Config()
 	var fs big.Float
 	fs.Set(v.toType("encode", conf, bigFloatType).(BigFloat).Float)
-	t := time.Unix(secNsec(&fs))
+	sec, nsec := secNsec(&fs)
+	checkTime(sec)
+	t := time.Unix(sec, nsec)
 	t = t.In(conf.LocationAt(t))
 	return t
 }
-- 
2.43.0


From 52efb593115576a3fb6e41f2ecbefb64142ca9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:37 +0000
Subject: [PATCH 71/85] fix: do not round whole seconds beyond 53 bits when
 finding the fraction

---
 value/sys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/sys.go b/value/sys.go
index e900670..ed8948c 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -290,7 +290,7 @@ func secNsec(fs *big.Float) (sec, nsec int64) {
 	var s big.Int
 	fs.Int(&s)
 	var frac big.Float // Leave fs, which may be the user's value, alone.
-	frac.Sub(fs, big.NewFloat(0).SetInt(&s))
+	frac.Sub(fs, new(big.Float).SetInt(&s))
 	frac.Mul(&frac, big.NewFloat(1e9))
 	frac.Add(&frac, big.NewFloat(math.Copysign(0.5, float64(frac.Sign()))))
 	ns, _ := frac.Int64()
-- 
2.43.0


From 24c3dd1d6f3ec9790519e2227b7edaf101e86f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:35 +0000
Subject: [PATCH 72/85] fix: mobile.Reset resets every setting

---
 mobile/mobile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mobile/mobile.go b/mobile/mobile.go
index 42349bc..32251e3 100644
--- a/mobile/mobile.go
+++ b/mobile/mobile.go
@@ -85,6 +85,7 @@ func (d *Demo) Next() (result string, err error) {
 
 // Reset clears all state to the initial value.
 func Reset() {
+	conf = config.Config{} // Every setting, including those not listed here.
 	conf.SetFormat("")
 	conf.SetMaxBits(1e9)
 	conf.SetMaxDigits(1e4)
-- 
2.43.0


From 2d04b367bee3ef228e97b0c7267be2702b0947ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:42 +0000
Subject: [PATCH 73/85] fix: allow long lines in a mobile demo

---
 mobile/mobile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mobile/mobile.go b/mobile/mobile.go
index 32251e3..ad44014 100644
--- a/mobile/mobile.go
+++ b/mobile/mobile.go
@@ -66,8 +66,10 @@ func NewDemo(input string) *Demo {
 	// TODO: The state being reset should be local to the demo.
 	// but that's not worth doing until ivy itself has no global state.
 	Reset()
+	scanner := bufio.NewScanner(strings.NewReader(input))
+	scanner.Buffer(nil, len(input)+1) // No line is too long.
 	return &Demo{
-		scanner: bufio.NewScanner(strings.NewReader(input)),
+		scanner: scanner,
 	}
 }
 
-- 
2.43.0


From 3a89286263221ed12da46c28e00e9496ca27d20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:51 +0000
Subject: [PATCH 74/85] fix: write traces and timings to the configured output

---
 run/run.go    | 2 +-
 value/eval.go | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/run/run.go b/run/run.go
index e426f0f..9745de0 100644
--- a/run/run.go
+++ b/run/run.go
@@ -94,7 +94,7 @@ func Run(p *parse.Parser, context value.Context, interactive bool) (success bool
 		if interactive {
 			if exprs != nil && conf.Debug("cpu") > 0 {
 				if real, _, _ := conf.CPUTime(); real != 0 {
-					fmt.Printf("(%s)\n", conf.PrintCPUTime())
+					fmt.Fprintf(writer, "(%s)\n", conf.PrintCPUTime())
 				}
 			}
 			fmt.Fprintln(writer)
diff --git a/value/eval.go b/value/eval.go
index 38292f8..f090b76 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -69,9 +69,7 @@ func (op *unaryOp) EvalUnary(c Context, v Value) Value {
 		}
 		Errorf("unary %s not implemented on type %s", op.name, which)
 	}
-	if c.Config().Tracing(2) {
-		fmt.Printf("\t%s> %s %s\n", c.TraceIndent(), op.name, v)
-	}
+	TraceUnary(c, 2, op.name, v)
 	return fn(c, v)
 }
 
@@ -124,9 +122,7 @@ func (op *binaryOp) EvalBinary(c Context, u, v Value) Value {
 		}
 		Errorf("binary %s not implemented on type %s", op.name, whichV)
 	}
-	if conf.Tracing(2) {
-		fmt.Printf("\t%s> %s %s %s\n", c.TraceIndent(), u, op.name, v)
-	}
+	TraceBinary(c, 2, u, op.name, v)
 	return fn(c, u, v)
 }
 
-- 
2.43.0


From 0c59e35eaeefeef0df5d6620a0c9bbc192e28613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:54 +0000
Subject: [PATCH 75/85] fix: report the right line for scan errors and after
 raw strings

---
 parse/parse.go | 1 +
 scan/scan.go   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 827b126..5d8a633 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -187,6 +187,7 @@ func (p *Parser) readTokensToNewline(inFunction bool) bool {
 		tok := p.scanner.Next()
 		switch tok.Type {
 		case scan.Error:
+			p.lineNum = tok.Line
 			p.errorf("%s", tok)
 		case scan.Newline:
 			// Need a truly blank line to terminate the function body.
diff --git a/scan/scan.go b/scan/scan.go
index e4d6328..3da1a33 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -181,6 +181,9 @@ func (l *Scanner) emit(t Type) stateFn {
 		fmt.Fprintf(config.Output(), "%s:%d: emit %s\n", l.name, l.line, Token{t, l.line, text})
 	}
 	l.token = Token{t, l.line, text}
+	if t == String {
+		l.line += strings.Count(text, "\n") // A raw string can span lines.
+	}
 	l.start = l.pos
 	return nil
 }
@@ -203,7 +206,8 @@ func (l *Scanner) acceptRun(valid string) {
 
 // errorf returns an error token and empties the input.
 func (l *Scanner) errorf(format string, args ...interface{}) stateFn {
-	l.token = Token{Error, l.start, fmt.Sprintf(format, args...)}
+	l.token = Token{Error, l.line, fmt.Sprintf(format, args...)}
+	l.line += strings.Count(l.input[l.start:], "\n") // We discard the rest of the line.
 	l.start = 0
 	l.pos = 0
 	l.input = l.input[:0]
-- 
2.43.0


From 84f81658a035cc420857fe43d149f2774472c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:36 +0000
Subject: [PATCH 76/85] fix: the integer part of a logarithm is only taken when
 it is exact

---
 value/log.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/value/log.go b/value/log.go
index ea9fd7c..8f4cb7a 100644
--- a/value/log.go
+++ b/value/log.go
@@ -73,7 +73,7 @@ func uint64Log(b, v uint64) (i, r uint64) {
 		i, v = uint64Log(b*b, v)
 		i <<= 1
 	}
-	if v >= b {
+	if v >= b && v%b == 0 {
 		v /= b
 		i |= 1
 	}
@@ -98,8 +98,11 @@ func bigIntLog(b, v BigInt) (i Int, r BigInt) {
 		i <<= 1
 	}
 	if v.Cmp(b.Int) >= 0 {
-		v = BigInt{new(big.Int).Div(v.Int, b.Int)}
-		i |= 1
+		// What is left need not be a multiple of b.
+		if q, r := new(big.Int).QuoRem(v.Int, b.Int, new(big.Int)); r.Sign() == 0 {
+			v = BigInt{q}
+			i |= 1
+		}
 	}
 	return i, v
 }
-- 
2.43.0


From 9ff7569f001cd10464aec5f4e660f0877870b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:47 +0000
Subject: [PATCH 77/85] fix: the exponential of a negative number does not
 cancel

---
 value/power.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/value/power.go b/value/power.go
index b82d3f7..8e4ba55 100644
--- a/value/power.go
+++ b/value/power.go
@@ -101,6 +101,11 @@ func floatPower(c Context, bx, bexp BigFloat) Value {
 // since we call it with only small values of x.
 func exponential(conf *config.Config, x *big.Float) *big.Float {
 	// The Taylor series for e**x, exp(x), is 1 + x + x²/2! + x³/3! ...
+	// For negative x the terms alternate and cancel, so use e**x == 1/e**-x.
+	if x.Sign() < 0 {
+		z := exponential(conf, newF(conf).Neg(x))
+		return z.Quo(floatOne, z)
+	}
 
 	xN := newF(conf).Set(x)
 	term := newF(conf)
-- 
2.43.0


From 4c733e812d177b9f754d91e70f287b095f14771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:06 +0000
Subject: [PATCH 78/85] fix: the square root of a complex number keeps its
 small component

---
 value/sqrt.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/value/sqrt.go b/value/sqrt.go
index 8d5ff4e..83e2f15 100644
--- a/value/sqrt.go
+++ b/value/sqrt.go
@@ -29,13 +29,22 @@ func complexSqrt(c Context, v Complex) Complex {
 	a2 := newFloat(c).Mul(a, a)
 	b2 := newFloat(c).Mul(b, b)
 	mag := floatSqrt(c, a2.Add(a2, b2))
-	// The real part is sqrt(mag+a)/2.
-	r := newFloat(c).Add(mag, a)
-	r = floatSqrt(c, r.Quo(r, floatTwo))
-	// The imaginary part is sgn(b)*sqrt(mag-a)/2
-	i := newFloat(c).Sub(mag, a)
-	i.Quo(i, floatTwo)
-	i = floatSqrt(c, i)
+	// The real part is sqrt((mag+a)/2) and the imaginary part is
+	// sgn(b)*sqrt((mag-a)/2). Only the one that adds magnitudes is accurate;
+	// their product is b/2, which gives the other.
+	large := newFloat(c).Abs(a)
+	large.Add(mag, large)
+	large = floatSqrt(c, large.Quo(large, floatTwo))
+	small := newFloat(c)
+	if b.Sign() != 0 {
+		small.Abs(b)
+		small.Quo(small, floatTwo)
+		small.Quo(small, large)
+	}
+	r, i := large, small
+	if a.Sign() < 0 {
+		r, i = small, large
+	}
 	if b.Sign() < 0 {
 		i.Neg(i)
 	}
-- 
2.43.0


From 0848a060b433dccb02102923729bfd7d8e6b2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:27 +0000
Subject: [PATCH 79/85] fix: inverse sines and hyperbolic functions do not
 cancel

---
 value/asin.go  |  5 +++++
 value/asinh.go | 19 +++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/value/asin.go b/value/asin.go
index c0b8ec0..bcd00df 100644
--- a/value/asin.go
+++ b/value/asin.go
@@ -187,6 +187,11 @@ func floatAtanLarge(c Context, x *big.Float) *big.Float {
 
 func complexAsin(c Context, v Complex) Complex {
 	// Use the formula: asin(v) = -i * log(sqrt(1-v²) + i*v)
+	// The two terms cancel in the upper half plane and for negative v;
+	// there, asin(v) = -asin(-v).
+	if sgn(c, v.imag) > 0 || isZero(v.imag) && isNegative(v.real) {
+		return complexAsin(c, v.neg(c)).neg(c)
+	}
 	x := NewComplex(one, zero)
 	x = complexSqrt(c, x.sub(c, v.mul(c, v)))
 	i := NewComplex(zero, one)
diff --git a/value/asinh.go b/value/asinh.go
index 1d94207..8b195e1 100644
--- a/value/asinh.go
+++ b/value/asinh.go
@@ -47,6 +47,11 @@ func atanh(c Context, v Value) Value {
 // floatAsinh computes asinh(x) using the formula asinh(x) = log(x + sqrt(x²+1)).
 // The domain is the real line.
 func floatAsinh(c Context, x *big.Float) *big.Float {
+	// The two terms cancel for negative x, but asinh(-x) == -asinh(x).
+	if x.Sign() < 0 {
+		z := floatAsinh(c, newFloat(c).Neg(x))
+		return z.Neg(z)
+	}
 	z := newFloat(c).Set(x)
 	z.Mul(z, x)
 	z.Add(z, floatOne)
@@ -83,6 +88,10 @@ func floatAtanh(c Context, x *big.Float) *big.Float {
 
 // complexAsinh computes asinh(x) using the formula asinh(x) = log(x + sqrt(x²+1)).
 func complexAsinh(c Context, x Complex) Complex {
+	// The two terms cancel in the left half plane, but asinh(-x) == -asinh(x).
+	if isNegative(x.real) || isZero(x.real) && isNegative(x.imag) {
+		return complexAsinh(c, x.neg(c)).neg(c)
+	}
 	z := x.mul(c, x)
 	z = z.add(c, NewComplex(one, zero))
 	z = complexSqrt(c, z)
@@ -95,8 +104,14 @@ func complexAcosh(c Context, x Complex) Complex {
 	z := x.mul(c, x)
 	z = z.sub(c, NewComplex(one, zero))
 	z = complexSqrt(c, z)
-	z = z.add(c, x)
-	return complexLog(c, z)
+	// The product of x + sqrt(x²-1) and x - sqrt(x²-1) is 1.
+	// Use the one whose terms do not cancel.
+	sum := x.add(c, z)
+	diff := x.sub(c, z)
+	if toBool(c.EvalBinary(diff.abs(c), ">", sum.abs(c))) {
+		sum = diff.inverse(c)
+	}
+	return complexLog(c, sum)
 }
 
 // complexAtanh computes asinh(x) using the formula asinh(x) = ½log((1+x)/(1-x))
-- 
2.43.0


From 47dae63f86b0234fde34048d5b344500b1f80738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:25 +0000
Subject: [PATCH 80/85] fix: grading a matrix is stable, as for a vector

---
 value/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/matrix.go b/value/matrix.go
index 77d77fb..2d0db51 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1061,7 +1061,7 @@ func (m *Matrix) grade(c Context) *Vector {
 	}
 	v := m.data
 	stride := size(m.shape[1:])
-	sort.Slice(x, func(i, j int) bool {
+	sort.SliceStable(x, func(i, j int) bool {
 		i = x[i] * stride
 		j = x[j] * stride
 		for k := 0; k < stride; k++ {
-- 
2.43.0


From 678acfcdaf60b41f05462bd2258091a86e708228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:31 +0000
Subject: [PATCH 81/85] fix: a failing parallel evaluation reports the first
 error

---
 value/eval.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index f090b76..57b02c9 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -217,17 +217,21 @@ func pfor(ok bool, size, n int, f func(lo, hi int)) {
 	if q := n * size / pforMinWork; q < p {
 		p = q
 	}
-	c := make(chan interface{}, p)
-	for i := 0; i < p; i++ {
+	errs := make([]chan interface{}, p)
+	for i := range errs {
 		lo, hi := i*n/p, (i+1)*n/p
+		c := make(chan interface{}, 1)
+		errs[i] = c
 		go func() {
 			defer sendRecover(c)
 			f(lo, hi)
 		}()
 	}
+	// If several ranges fail, report the error of the first one,
+	// as the sequential loop would.
 	var err interface{}
-	for i := 0; i < p; i++ {
-		if e := <-c; e != nil {
+	for _, c := range errs {
+		if e := <-c; e != nil && err == nil {
 			err = e
 		}
 	}
-- 
2.43.0


From 85e1011da071a7f8e8ea9d2d1f2d0b0f76d29329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:34 +0000
Subject: [PATCH 82/85] fix: names that start with digits of the input base

---
 scan/scan.go | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/scan/scan.go b/scan/scan.go
index 3da1a33..56d7443 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -282,7 +282,7 @@ func lexAny(l *Scanner) stateFn {
 				return lexOperator
 			}
 			// Ugly corner case: inner product starting with '-' or '+'.
-			if r1, r2 := l.peek2(); r1 == '.' && !l.isNumeral(r2) {
+			if l.peek() == '.' && !l.numberNext() {
 				return lexOperator
 			}
 		}
@@ -367,7 +367,7 @@ func lexIdentifier(l *Scanner) stateFn {
 		return lexOperator
 	case word == "" || eachLeft > 0:
 		return l.errorf("invalid operator %q", l.input[l.start:l.pos])
-	case isAllDigits(word, l.context.Config().InputBase()):
+	case l.isNumber(word) && !l.context.UserDefined(word, false):
 		// Mistake: back up and scan it as a number.
 		l.pos = l.start
 		return lexComplex
@@ -484,7 +484,7 @@ func acceptNumber(l *Scanner, realPart bool) (bool, stateFn) {
 			}
 			return false, l.emit(Operator)
 		}
-		if r != '.' && !l.isNumeral(r) {
+		if r != '.' && !l.numberNext() {
 			return false, lexOperator
 		}
 	}
@@ -499,7 +499,7 @@ func acceptNumber(l *Scanner, realPart bool) (bool, stateFn) {
 	l.accept("/")
 
 	if realPart {
-		if r := l.peek(); r != '.' && !l.isNumeral(r) {
+		if r := l.peek(); r != '.' && !l.numberNext() {
 			// Oops, not a rational. Back up!
 			l.pos--
 			return true, lexOperator
@@ -664,36 +664,43 @@ func isDigit(r rune) bool {
 	return '0' <= r && r <= '9'
 }
 
-// isNumeral reports whether r is a numeral in the input base.
-// A decimal digit is always taken as a numeral, because otherwise parsing
+// numberNext reports whether the input continues with a number in the input base,
+// as opposed to a name that may start with letters that are digits in that base.
+// A decimal digit always starts a number, because otherwise parsing
 // would be muddled. (In base 8, 039 shouldn't be scanned as two numbers.)
 // The parser will check that the scanned number is legal.
-func (l *Scanner) isNumeral(r rune) bool {
-	if '0' <= r && r <= '9' {
-		return true
+func (l *Scanner) numberNext() bool {
+	pos, lastRune, lastWidth := l.pos, l.lastRune, l.lastWidth
+	l.accept(".")
+	start := l.pos
+	for isAlphaNumeric(l.peek()) {
+		l.next()
 	}
+	word := l.input[start:l.pos]
+	number := word != "" && (isDigit(rune(word[0])) || l.isNumber(word) && !l.defined(word) && !l.context.UserDefined(word, false))
+	l.pos = pos
+	l.lastRune, l.lastWidth = lastRune, lastWidth
+	return number
+}
+
+// isNumber reports whether the word just scanned is a number in the input base
+// or, if it ends in 'j', the start of one whose imaginary part has a sign or point.
+func (l *Scanner) isNumber(word string) bool {
 	base := l.context.Config().InputBase()
-	if base < 10 {
-		return false
-	}
-	top := rune(base - 10)
-	if 'a' <= r && r <= 'a'+top {
-		return true
+	if r1, r2 := l.peek2(); strings.HasSuffix(word, "j") && strings.ContainsRune("+-.", r1) && (r2 == '.' || isAllDigits(string(r2), base)) {
+		word += "0"
 	}
-	if 'A' <= r && r <= 'A'+top {
-		return true
-	}
-	return false
+	return isAllDigits(word, base)
 }
 
 // isAllDigits reports whether s consists of digits in the specified base,
-// including possibly one 'j'.
+// including possibly one 'j' between them.
 func isAllDigits(s string, base int) bool {
 	top := 'a' + rune(base-10) - 1
 	TOP := 'A' + rune(base-10) - 1
 	sawJ := false
-	for _, c := range s {
-		if c == 'j' && !sawJ {
+	for i, c := range s {
+		if c == 'j' && !sawJ && 0 < i && i < len(s)-1 {
 			sawJ = true
 			continue
 		}
-- 
2.43.0


From 08c8da83d9b272d3184085194c09b6252c1e089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:27 +0000
Subject: [PATCH 83/85] fix: sys read accepts a one-letter file name

---
 value/sys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/sys.go b/value/sys.go
index ed8948c..30f17c9 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -155,6 +155,9 @@ func sysRead(conf *config.Config, args []Value) Value {
 		usage()
 	}
 	v, ok := args[0].(*Vector)
+	if char, isChar := args[0].(Char); isChar {
+		v, ok = oneElemVector(char), true // A one-letter file name.
+	}
 	if !ok || !v.AllChars() {
 		usage()
 	}
-- 
2.43.0


From dd7b4f9b883fd9b72801ac3b50583f822df0ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:24 +0000
Subject: [PATCH 84/85] fix: )get sets _ after the whole line, as at the top
 level

---
 parse/special.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/special.go b/parse/special.go
index ff9fbcf..d123cd4 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -445,6 +445,7 @@ func (p *Parser) runUntilError(name string) error {
 	}()
 	for {
 		exprs, ok := p.Line()
+		var last value.Value
 		for _, expr := range exprs {
 			val := expr.Eval(p.context)
 			if val == nil {
@@ -453,8 +454,12 @@ func (p *Parser) runUntilError(name string) error {
 			if _, ok := val.(value.QuietValue); ok {
 				continue
 			}
-			p.context.AssignGlobal("_", val)
 			p.Println(val.Sprint(p.context.Config()))
+			last = val
+		}
+		// As at the top level, set _ when the whole line has succeeded.
+		if last != nil {
+			p.context.AssignGlobal("_", last)
 		}
 		if !ok {
 			return io.EOF
-- 
2.43.0


From ccd1f1dc615c56dc227cfc5639f11b6c6a79c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:47 +0000
Subject: [PATCH 85/85] fix: )help about ignores the case of the word

---
 parse/special.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/special.go b/parse/special.go
index d123cd4..8a2a3a8 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -152,7 +152,7 @@ Switch:
 				p.helpOverview()
 				break
 			}
-			p.helpAbout(tok.Text)
+			p.helpAbout(strings.ToLower(tok.Text))
 		default:
 			p.help(str)
 		}
-- 
2.43.0

