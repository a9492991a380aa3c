From 87eee16e93ccc78d5c258c581d7def5f7771b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 001/103] fix: Median selects the middle value for odd lengths

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..61bc984 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, (len(xs) + 1) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From 4d9bd7ecd617bfa64039cc5c43bd804edc97a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 002/103] fix: Percentile counts ranks up from the minimum

---
 math/sort/median.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 61bc984..455b895 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -10,7 +10,8 @@ func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	// NthLargest is 1-indexed and counts down from the maximum.
+	return NthLargest(xs, len(xs) - n, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From e1d73d156e5b6b006ef4d78fc92e340ead78afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 003/103] fix: boxes are never wider than the simulation box

---
 render/box.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..917538f 100644
--- a/render/box.go
+++ b/render/box.go
@@ -163,6 +163,9 @@ func newBox2D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// A request which ends in the pixel it started in one period earlier
+		// must not contain that pixel twice.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
@@ -199,6 +202,9 @@ func newBox3D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// A request which ends in the pixel it started in one period earlier
+		// must not contain that pixel twice.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
-- 
2.43.0


From 2b934f708df42ba779c4adcbe7f9e9b98a102dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 004/103] fix: intFloor rounds whole numbers to themselves

---
 render/box.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/render/box.go b/render/box.go
index 917538f..21e6fea 100644
--- a/render/box.go
+++ b/render/box.go
@@ -689,11 +689,7 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
-	}
+	return int(math.Floor(float64(x)))
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From 31990382563bbf54ad50746b32eba64423529df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 005/103] fix: periodic intersection of cell bounds one period
 apart

---
 render/geom/grid.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..a3beb73 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -116,7 +116,8 @@ func (cb1 *CellBounds) Intersect(cb2 *CellBounds, width int) bool {
 			oBig, wBig = cb1.Origin[i], cb1.Width[i]
 		}
 
-		eSmall := oSmall + wSmall
+		// The last cell of the smaller box.
+		eSmall := oSmall + wSmall - 1
 		beSmall := bound(eSmall, oBig, width)
 		boSmall := bound(oSmall, oBig, width)
 
@@ -146,7 +147,7 @@ func (cb1 *CellBounds) IntersectUnbounded(cb2 *CellBounds) bool {
 func bound(x, origin, width int) int {
 	diff := x - origin
 	if diff < 0 { return diff + width }
-	if diff > width { return diff - width }
+	if diff >= width { return diff - width }
 	return diff
 }
 
-- 
2.43.0


From 4a6697735680a056132861125873b5fe8dcff24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 006/103] fix: samples rounded onto a segment's upper face stay
 in the segment

---
 render/box.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/render/box.go b/render/box.go
index 21e6fea..33937e2 100644
--- a/render/box.go
+++ b/render/box.go
@@ -516,7 +516,8 @@ func (w *segmentOverlap2D) Interpolate(
 
 	for idx := low; idx < high; idx += jump {
 		pt := xs[idx]
-		i, j := int(pt[iDim]), int(pt[jDim])
+		i := pixel(pt[iDim], w.bufCb.Width[iDim])
+		j := pixel(pt[jDim], w.bufCb.Width[jDim])
 		
 		k := intFloor(pt[kDim])
 		kk := bound(k - kOffset, w.cells)
@@ -561,7 +562,9 @@ func (w *segmentOverlap3D) Interpolate(
 	if !scalar {
 		for idx := low; idx < high; idx += jump {
 			pt := xs[idx]
-			x, y, z := int(pt[0]), int(pt[1]), int(pt[2])
+			x := pixel(pt[0], w.bufCb.Width[0])
+			y := pixel(pt[1], w.bufCb.Width[1])
+			z := pixel(pt[2], w.bufCb.Width[2])
 			bufIdx := x + y * length + z * area
 			for dim := 0; dim < 3; dim++ {
 				vbuf[bufIdx][dim] += ptVal * vwbuf[idx][dim]
@@ -571,7 +574,9 @@ func (w *segmentOverlap3D) Interpolate(
 	} else if wlen == 0 {
 		for idx := low; idx < high; idx += jump {
 			pt := xs[idx]
-			x, y, z := int(pt[0]), int(pt[1]), int(pt[2])
+			x := pixel(pt[0], w.bufCb.Width[0])
+			y := pixel(pt[1], w.bufCb.Width[1])
+			z := pixel(pt[2], w.bufCb.Width[2])
 			bufIdx := x + y * length + z * area
 			buf[bufIdx] += ptVal
 			if countValid { counts[bufIdx]++ }
@@ -579,7 +584,9 @@ func (w *segmentOverlap3D) Interpolate(
 	} else {
 		for idx := low; idx < high; idx += jump {
 			pt := xs[idx]
-			x, y, z := int(pt[0]), int(pt[1]), int(pt[2])
+			x := pixel(pt[0], w.bufCb.Width[0])
+			y := pixel(pt[1], w.bufCb.Width[1])
+			z := pixel(pt[2], w.bufCb.Width[2])
 			bufIdx := x + y * length + z * area
 			buf[bufIdx] += ptVal * wbuf[idx]
 			if countValid { counts[bufIdx]++ }
@@ -692,6 +699,14 @@ func intFloor(x float32) int {
 	return int(math.Floor(float64(x)))
 }
 
+// pixel returns the pixel which contains x in a segment which is width pixels
+// wide. Points which rounding carried past a face stay inside the segment.
+func pixel(x float32, width int) int {
+	i := int(x)
+	if i >= width { return width - 1 }
+	return i
+}
+
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
 	i = cb1.Origin[0] - cb2.Origin[0]
 	j = cb1.Origin[1] - cb2.Origin[1]
-- 
2.43.0


From 0b7a147003c8c97912b43c9c18766c4106d5136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 007/103] fix: rounding below a segment's lower face does not
 wrap around the box

---
 render/geom/grid.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index a3beb73..091069e 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -168,7 +168,7 @@ func (vcb *CellBounds) ScaleVecsSegment(
 		for j := 0; j < 3; j++ { 
 			vs[i][j] *= scale
 			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
+			if vs[i][j] < 0 { vs[i][j] = wrapScaled(vs[i][j], fCells) }
 		}
 	}
 }
@@ -203,12 +203,20 @@ func (vcb *CellBounds) ScaleVecsDomain(
 		for j := 0; j < 3; j++ { 
 			vs[i][j] *= scale
 			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
+			if vs[i][j] < 0 { vs[i][j] = wrapScaled(vs[i][j], fCells) }
 			vs[i][j] += diff[j]
 		}
 	}
 }
 
+// wrapScaled moves a negative scaled coordinate into the periodic box. Ones
+// which are negative only because of rounding lie on the lower face and must
+// not be moved to the other side of the box.
+func wrapScaled(x, fCells float32) float32 {
+	if x > -fCells*1e-6 { return 0 }
+	return x + fCells
+}
+
 func maxV(vs []Vec, dim int) float32 {
 	max := vs[0][dim]
 	for i := range vs {
-- 
2.43.0


From c616caddda95bfd696b48af25fc23d459b9e7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 008/103] fix: projected velocities are not divided by the
 depth twice

---
 render/box.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/box.go b/render/box.go
index 33937e2..113216c 100644
--- a/render/box.go
+++ b/render/box.go
@@ -505,14 +505,14 @@ func (w *segmentOverlap2D) Interpolate(
 	kOffset := w.domCb.Origin[kDim] - w.bufCb.Origin[kDim]
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.domCb.Width[kDim])
-
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
 	counts, countValid := bbuf.CountBuffer()
+	// Counted quantities are averaged over their samples when finalized.
+	if !countValid { ptVal /= float64(w.domCb.Width[kDim]) }
 
 	for idx := low; idx < high; idx += jump {
 		pt := xs[idx]
@@ -611,14 +611,14 @@ func (w *domainOverlap2D) Interpolate(
 	}
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.bufCb.Width[kDim])
-
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
 	counts, countValid := bbuf.CountBuffer()
+	// Counted quantities are averaged over their samples when finalized.
+	if !countValid { ptVal /= float64(w.bufCb.Width[kDim]) }
 
 	for idx := low; idx < high; idx += jump {
 		pt := xs[idx]
-- 
2.43.0


From ac577dbb0997633a8886956a37aae35b2ce731bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 009/103] fix: Subsample checks the length it is given

---
 render/render.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 9740a29..cfb3bef 100644
--- a/render/render.go
+++ b/render/render.go
@@ -215,8 +215,15 @@ func (r *renderer) initWorkspaces(man *Manager) {
 func (man *Manager) Log(flag bool) { man.log = flag }
 
 func (man *Manager) Subsample(subsampleLength int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(subsampleLength) {
+		log.Fatalf(
+			"Skip ingrement is %d, must be power of two.", subsampleLength,
+		)
+	} else if man.hd.SegmentWidth % int64(subsampleLength) != 0 {
+		log.Fatalf(
+			"Skip ingrement is %d, must divide the segment width, %d.",
+			subsampleLength, man.hd.SegmentWidth,
+		)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From 80c4dc80ff8292a64681ef605295ffc88f03e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 010/103] fix: centred tetrahedra are checked against the grid
 on every axis

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..65669f6 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 {
 		return -1, false
 	}	
 
-- 
2.43.0


From fabbaa29c4f32cf5cfc55f2ab990c4511fda63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 011/103] fix: Barycenter includes all four corners

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 65669f6..d2c5987 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i] +
+			t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From 2ac9e7d8d081554973a0ea2893070057ee0b53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 012/103] fix: tetrahedron cell bounds use the largest
 coordinate itself

---
 render/geom/tetra.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index d2c5987..c1ea6ca 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -489,17 +489,8 @@ func (t *Tetra) CellBoundsAt(cellWidth float64, cb *CellBounds) {
 	}
 
 	for i := 0; i < 3; i++ {
-		maxes[i] -= mins[i]
-	}
-	width := maxes
-	origin := mins
-
-
-	for i := 0; i < 3; i++ {
-		cb.Origin[i] = int(math.Floor(float64(origin[i]) / cellWidth))
-		cb.Width[i] = 1 + int(math.Floor(
-			float64(width[i] + origin[i]) / cellWidth),
-		)
+		cb.Origin[i] = int(math.Floor(float64(mins[i]) / cellWidth))
+		cb.Width[i] = 1 + int(math.Floor(float64(maxes[i]) / cellWidth))
 		cb.Width[i] -= cb.Origin[i]
 	}
 }
-- 
2.43.0


From 99d8884bc6a29ce44deb27c4b14738e28d21f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 013/103] fix: v1.Cross(v2) is v1 x v2

---
 render/geom/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..4b7cbc5 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -125,7 +125,7 @@ func (v1 *Vec) CrossSelf(v2 *Vec) *Vec {
 	return v1.CrossAt(v2, v1)
 }
 
-func (v2 *Vec) CrossAt(v1, out *Vec) *Vec {
+func (v1 *Vec) CrossAt(v2, out *Vec) *Vec {
 	out0 := v1[1]*v2[2] - v1[2]*v2[1]
 	out1 := v1[2]*v2[0] - v1[0]*v2[2]
 	out2 := v1[0]*v2[1] - v1[1]*v2[0]
-- 
2.43.0


From a005e0840347c22660ed8ba0923b54faca3c215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 014/103] fix: Mod never returns the width itself

---
 render/geom/vec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 4b7cbc5..1002128 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -47,6 +47,10 @@ func (v *Vec) ModAt(width float64, out *Vec) *Vec {
 			out[i] -= w
 		} else if out[i] < 0 {
 			out[i] += w
+			// Rounding can take a value just below zero to the width itself.
+			if out[i] >= w {
+				out[i] = 0
+			}
 		}
 	}
 	return out
-- 
2.43.0


From aec8bed8d2fe91083bc05c99ecf19cd201393f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 015/103] fix: derivatives at the z faces step along z

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From 9b1762ae95f9846d4c613908b69f5e2ba99ec47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 016/103] fix: Curl and Divergence leave the options they are
 given alone

---
 render/geom/deriv.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..90cb79d 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -323,12 +323,10 @@ func (g *GridLocation) Curl(
 	vecs, out [3][]float32,
 	op *DerivOptions,
 ) {
-	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	// The caller's options (and the defaults) may be shared.
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 
 	g.Deriv(vecs[2], out[0], 1, op)
 	g.Deriv(vecs[0], out[1], 2, op)
@@ -344,11 +342,9 @@ func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
 	op.Op = Add
 	g.Deriv(vecs[1], out, 1, op)
-- 
2.43.0


From 85bf6b4285dedd5aead0a81ca9fc5bd1ffb37a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 017/103] fix: Curl and Divergence subtract every term in
 subtract mode

---
 render/geom/deriv.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 90cb79d..e2be7fd 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -332,7 +332,11 @@ func (g *GridLocation) Curl(
 	g.Deriv(vecs[0], out[1], 2, op)
 	g.Deriv(vecs[1], out[2], 0, op)
 
-	op.Op = Subtract
+	if op.Op == Subtract {
+		op.Op = Add
+	} else {
+		op.Op = Subtract
+	}
 	g.Deriv(vecs[1], out[0], 2, op)
 	g.Deriv(vecs[2], out[1], 0, op)
 	g.Deriv(vecs[0], out[2], 1, op)
@@ -346,7 +350,7 @@ func (g *GridLocation) Divergence(
 	tmp := *op
 	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
-	op.Op = Add
+	if op.Op == None { op.Op = Add }
 	g.Deriv(vecs[1], out, 1, op)
 	g.Deriv(vecs[2], out, 2, op)
 }
-- 
2.43.0


From a7b51d1ee7e5c2dd122b416a7553e1bd128e6500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 018/103] fix: fourth-order derivatives need the width of their
 stencil

---
 render/geom/deriv.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index e2be7fd..704ba9d 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -34,6 +34,16 @@ func (g *GridLocation) Deriv(
 			"derivatives, not %d order.", opt.Order)
 	}
 
+	// Every point of the stencil must be in the array.
+	minWidth := opt.Order + 1
+	if opt.Order == 4 && opt.Periodic && g.Cells == g.Width[axis] {
+		minWidth = 4
+	}
+	if g.Width[axis] < minWidth {
+		log.Fatalf("Width of array must be at least %d for a derivative " +
+			"of order %d.", minWidth, opt.Order)
+	}
+
 	lBounds := [3]int{0, 0, 0}
 	uBounds := g.Width
 	lBounds[axis] += opt.Order / 2
-- 
2.43.0


From 3f03ab36ee0c34a4ab006618a8499a8d2044165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 019/103] fix: Grid.Coords inverts Grid.Idx for every origin

---
 render/geom/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index 091069e..33a8a81 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -85,9 +85,9 @@ func (g *Grid) BoundsCheck(x, y, z int) bool {
 
 // Coords returns the x, y, z coordinates of a point from its grid index.
 func (g *Grid) Coords(idx int) (x, y, z int) {
-	x = idx % g.Length
-	y = (idx % g.Area) / g.Length
-	z = idx / g.Area
+	x = g.Origin[0] + idx % g.Length
+	y = g.Origin[1] + (idx % g.Area) / g.Length
+	z = g.Origin[2] + idx / g.Area
 	return x, y, z
 }
 /*
-- 
2.43.0


From 50308ad2a64d9304ff2950dd67de2ec07f5b8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 020/103] fix: velocity divergence uses the y component

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..5eec2df 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -354,7 +354,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From 051bb82ec6bd798a94943835eecc256f39a17499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 021/103] fix: remove a debugging print which divides by zero
 on small velocity buffers

---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 5eec2df..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From 48c2e0cb7f4ccc79c5c5bf697237fff0925bb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 022/103] fix: the density quantity has a name

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From bf3d34f2052539de1f2ff91883203df6cffb7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 023/103] fix: positions read from Gadget files are never the
 box width itself

---
 render/io/io.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index 7f351b7..890d310 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -241,6 +241,8 @@ func ReadGadgetParticlesAt(
 	for i := range xs {
 		for j := 0; j < 3; j++ {
 			xs[i][j] = float32(gh.WrapDistance(float64(xs[i][j])))
+			// Rounding can take a value just below the box's edge onto it.
+			if float64(xs[i][j]) >= gh.BoxSize { xs[i][j] = 0 }
 			vs[i][j] = vs[i][j] * rootA
 		}
 	}
-- 
2.43.0


From a6ac77d5c60570f9ba62c9859dcf0d6a6044c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 024/103] fix: Gadget headers are read in the order of the file

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 890d310..facdfce 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	binary.Read(f, order, gh)
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +168,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	binary.Read(f, order, gh)
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
-- 
2.43.0


From 09856c76bf0fa2d2560d836aa62cc9da64994d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 025/103] fix: 64-bit floats are byte swapped as a whole

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index facdfce..940ceb4 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -450,7 +450,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	if !isSysOrder(end) {
 		for i := 0; i < bufLen * 3; i++ {
 			for j := 0; j < 4; j++ {
-				idx1, idx2 := i*8 + j, i*8 + 3 - j
+				idx1, idx2 := i*8 + j, i*8 + 7 - j
 				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
 			}
 		}
-- 
2.43.0


From e51c1d91d61de25b62c6af1467a54a56b0bb7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 026/103] fix: 32-bit particle IDs are unsigned

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 940ceb4..edd11a0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -551,7 +551,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap /= 4
 
 	for i := range buf {
-		buf64[i] = int64(buf[i])
+		buf64[i] = int64(uint32(buf[i]))
 	}
 	
 	return nil
-- 
2.43.0


From 89a5b975471be5965998aa79866ac9ba76ed99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 027/103] fix: ReadSheetPositionsAt reports header errors

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index edd11a0..e50408c 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -316,7 +316,7 @@ func ReadSheetHeaderAt(file string, hdBuf *SheetHeader) error {
 func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
-	if err != nil { return nil }
+	if err != nil { return err }
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
-- 
2.43.0


From 9580a47fcb5e3b08653ec060c1c3b57604021019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 028/103] fix: WriteSheet closes its file

---
 render/io/io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index e50408c..1b79f0e 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -364,6 +364,9 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	}
 
 	f, err := os.Create(file)
+	if err != nil {
+		log.Fatalf(err.Error())
+	}
 	endiannessFlag := int32(0)
 	order := endianness(endiannessFlag)
 
@@ -385,6 +388,9 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	if err = writeVecAsByte(f, order, vs); err != nil {
 		log.Fatalf(err.Error())
 	}
+	if err = f.Close(); err != nil {
+		log.Fatalf(err.Error())
+	}
 }
 
 // CellBounds returns the bounds  of a given sheet aligned to the boundaries of
-- 
2.43.0


From a52f60cf6defd6d3bd2ddfb99cf35e82b0df3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 029/103] fix: sheet readers close their file on every path

---
 render/io/io.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 1b79f0e..99283ee 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -282,6 +282,8 @@ func readSheetHeaderAt(
 ) (*os.File, binary.ByteOrder, error) {
 	f, err := os.OpenFile(file, os.O_RDONLY, os.ModePerm)
 	if err != nil { return nil, binary.LittleEndian, err }
+	ok := false
+	defer func() { if !ok { f.Close() } }()
 
 	// order doesn't matter for this read, since flags are symmetric.
 	order := endianness(readInt32(f, binary.LittleEndian))
@@ -301,6 +303,7 @@ func readSheetHeaderAt(
 	if err != nil { return nil, binary.LittleEndian, err }
 
 	hdBuf.Count = hdBuf.CountWidth*hdBuf.CountWidth*hdBuf.CountWidth
+	ok = true
 	return f, order, nil
 }
 
@@ -317,6 +320,7 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
@@ -326,10 +330,7 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	// Go to block 4 in the file.
 	// The file pointer should already be here, but let's just be safe, okay?
 	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{}))), 0)
-	if err := readVecAsByte(f, order, xsBuf); err != nil { return err }
-
-	if err := f.Close(); err != nil { return err }
-	return nil
+	return readVecAsByte(f, order, xsBuf)
 }
 
 // ReadVelocitiesAt reads the velocities in the given file into a buffer.
@@ -337,6 +338,7 @@ func ReadSheetVelocitiesAt(file string, vsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 	if h.GridCount != int64(len(vsBuf)) {
 		return fmt.Errorf("Velocity buffer has length %d, but file %s has %d " + 
 			"vectors.", len(vsBuf), file, h.GridCount)
@@ -344,9 +346,7 @@ func ReadSheetVelocitiesAt(file string, vsBuf []geom.Vec) error {
 
 	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{})) +
 		3 * 4 * len(vsBuf)), 0)
-	if err := readVecAsByte(f, order, vsBuf); err != nil { return err }
-	if err := f.Close(); err != nil { return err }
-	return nil
+	return readVecAsByte(f, order, vsBuf)
 }
 
 // Write writes a grid of position and velocity vectors to a file, defined
-- 
2.43.0


From eacdccab5c1189cd6c8d06dba582dc55d8ea2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 030/103] fix: ReadGrid reads projected grids

---
 render/io/output.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/io/output.go b/render/io/output.go
index cdf611d..1c87d2e 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -79,6 +79,8 @@ func ReadGrid(fname string) ([]float64, error) {
     }
 
     sp := hd.Loc.PixelSpan
+    // Projected grids are one pixel deep.
+    if axis := hd.Render.ProjectionAxis; axis >= 0 && axis < 3 { sp[axis] = 1 }
     val32s := make([]float32, sp[0] * sp[1] * sp[2])
     err = binary.Read(f, end, val32s)
     if err != nil { return nil, err }
-- 
2.43.0


From 19b251f1af56f8ba12a22706830824382a1a5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 031/103] fix: headers of vector grids say so

---
 render/io/output.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index 1c87d2e..280afcc 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -154,12 +154,13 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
-	binary.Write(wr, end, &hd)
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 		binary.Write(wr, end, ys)
 		binary.Write(wr, end, zs)
-- 
2.43.0


From 33feedf6c6bbfdb03c2bd5ac3afb2151ed0e3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 032/103] fix: gotetra.py opens headers as binary

---
 python/gotetra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gotetra.py b/python/gotetra.py
index 1e5ebc3..6771b76 100644
--- a/python/gotetra.py
+++ b/python/gotetra.py
@@ -66,7 +66,7 @@ def read_header(filename):
     """ read_header returns the header information at the top of a gotetra
     output file as a Header object.
     """
-    with open(filename, "r") as fp:
+    with open(filename, "rb") as fp:
         flag_s = fp.read(8)
         ver = _read_version(flag_s)
         sizes = Sizes(ver)
-- 
2.43.0


From 278723fcfb4e5c6ba8642bac7157b18e484f0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 033/103] fix: gtet.py unpacks the cosmology in file order

---
 python/gtet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/gtet.py b/python/gtet.py
index 46c59e0..e444113 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -24,7 +24,9 @@ class File(object):
 
         Header fields:
                   z - Redshift.
+              scale - Scale factor.
             omega_m - (rho_m/rho_c)(z=0).
+            omega_l - (rho_l/rho_c)(z=0).
                h100 - H0 / 100 (km/s/Mpx).
               count - Number of paritlces in the box.
         count_width - count^(1/3).
@@ -50,7 +52,8 @@ class File(object):
         position_bounds = struct.unpack("ffffff", fp.read(6*4))
         velocity_bounds = struct.unpack("ffffff", fp.read(6*4))
         
-        self.z, self.scale, self.omega_m, self.h100 = cosmo_info
+        self.z, self.omega_m, self.omega_l, self.h100 = cosmo_info
+        self.scale = 1 / (1 + self.z)
         (self.count, self.count_width,
          self.segment_width, self.grid_width, self.grid_count,
          self.file_idx, self.file_cells) = index_info
-- 
2.43.0


From 781bea6e2425d2baad0caaa4a010bca02dce0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 034/103] fix: gtet.py documents the index order of the file

---
 python/gtet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/gtet.py b/python/gtet.py
index e444113..3abf011 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -11,13 +11,13 @@ class File(object):
         Data grids:
             x - A shape (n, n, n, 3) numpy array containing the positions of
                 every particle in the file in comoving Mpc/h. The 1st [2nd, 3rd]
-                index corresponds to the x [y, z] dimension in the ICs, and the
+                index corresponds to the z [y, x] dimension in the ICs, and the
                 4th index to the coordinates of the position vector. Positions
                 in this array are unique and do not appear in the x array of
                 other files.
            xn - The same as x, except with shape (n+1, n+1, n+1, 3). This is the
                 "neighbor" array and contains all the particles which are one
-                index to the x [y, z] + 1 of the position vectors in x,
+                index to the z [y, x] + 1 of the position vectors in x,
                 including a buffer region which is shared with the x array of
                 adjacent files.
         v, vn - The same as above, except velocities in physical km/s.
-- 
2.43.0


From fdd08d34f3859f76ab57ad47cc533e359f70928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 035/103] fix: short reads of particle blocks are errors

---
 render/io/io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 99283ee..eea2a5e 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -423,7 +423,7 @@ func readVecAsByte(rd io.Reader, end binary.ByteOrder, buf []geom.Vec) error {
 	hd.Cap *= 12
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -450,7 +450,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	hd.Cap *= 24
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -512,7 +512,7 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	hd.Cap *= 8
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -541,7 +541,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap *= 4
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
-- 
2.43.0


From e9d889ab5d2937d4971723562728317f18f96032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 036/103] fix: Gadget read errors are reported

---
 render/io/io.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index eea2a5e..7126784 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, order, gh)
+	if err = binary.Read(f, order, gh); err != nil { panic(err) }
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +168,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, order, gh)
+	if err = binary.Read(f, order, gh); err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
@@ -202,10 +202,11 @@ func ReadGadgetParticlesAt(
 	}
 
 	if readF32 {
-		readVecAsByte(f, order, xs)
+		err = readVecAsByte(f, order, xs)
 	} else {
-		readVec64AsByte(f, order, xs)
+		err = readVec64AsByte(f, order, xs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 
@@ -218,22 +219,24 @@ func ReadGadgetParticlesAt(
 		panic(fmt.Sprintf("Internal error: Expected positions block to have header %d or %d, but actually has header %d\n (this is probably a binary file format issues)", f32Size, 2*f32Size, xSize))
 	}
 	if readF32 {
-		readVecAsByte(f, order, vs)
+		err = readVecAsByte(f, order, vs)
 	} else {
-		readVec64AsByte(f, order, vs)
+		err = readVec64AsByte(f, order, vs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 	_ = readInt32(f, order)
 
 	if idSize == 64 {
-		readInt64AsByte(f, order, ids)
+		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
 		runtime.GC()
-		readInt32AsByte(f, order, ids)
+		err = readInt32AsByte(f, order, ids)
 		runtime.GC()
 	} else {
 		panic("ID size other than 32 bits or 64 bits given.")
 	}
+	if err != nil { panic(err) }
 	//_ = readInt32(f, order)
 	
 	// Convert gadget velocities out of code units.
-- 
2.43.0


From c40b369e533318116b62dbd53d9446abd1a10f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 037/103] fix: failed grid writes are fatal

---
 render/io/output.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index 280afcc..0228c3e 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"log"
 	"math"
 	"os"
 
@@ -154,16 +155,22 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
+	write := func(x interface{}) {
+		if err := binary.Write(wr, end, x); err != nil {
+			log.Fatal(err.Error())
+		}
+	}
+
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
+		write(&hd)
+		write(xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
-		binary.Write(wr, end, ys)
-		binary.Write(wr, end, zs)
+		write(&hd)
+		write(xs)
+		write(ys)
+		write(zs)
 	} else {
 		panic("Buffer is neither scalar nor vector.")
 	}
-- 
2.43.0


From 52225a0faf755f3ffb9ed3621bb50a62167bbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 038/103] fix: failed histogram writes are fatal

---
 render/main/main.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 1de47f8..27e7203 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -807,13 +807,19 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
-		fmt.Fprintf(f, "# %s histogram ranging from %g to %g " +
+		write := func(format string, args ...interface{}) {
+			if _, err := fmt.Fprintf(f, format, args...); err != nil {
+				log.Fatalf("Could not write %s: %s", out, err.Error())
+			}
+		}
+
+		write("# %s histogram ranging from %g to %g " +
 			"# with %d bins (%s scaled).\n", con.Quantity, con.HistMin,
 			con.HistMax, con.HistBins, strings.ToLower(con.HistScale))
-		fmt.Fprintf(f, "# Column 0 - bin centers.\n")
-		fmt.Fprintf(f, "# Column 1 - bin counts.\n")
+		write("# Column 0 - bin centers.\n")
+		write("# Column 1 - bin counts.\n")
 		for j := range box.Counts {
-			fmt.Fprintf(f, "%8.4g %d\n", box.Centers[j], box.Counts[j])
+			write("%8.4g %d\n", box.Centers[j], box.Counts[j])
 		}
 	}	
 }
-- 
2.43.0


From 246259adde51bc78ec95d75210ac33be5f66ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:01 +0000
Subject: [PATCH 039/103] fix: histogram regions contain their lower faces

---
 render/hist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..de4a8f6 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -217,7 +217,7 @@ func intersect1D(a, aSpan, b, bSpan, L float64) bool {
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
 	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
+	return (b >= a && a + aSpan > b) ||
 		(b < a && a + aSpan - L > b)
 }
 
-- 
2.43.0


From c2d9877d96f80a94b72318614ac7a1c55c27c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 040/103] fix: histogram cubes are culled by their true bounds

---
 render/hist.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index de4a8f6..b929c90 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -247,7 +247,7 @@ func (man *HistManager) chanHistogram(
 						continue
 					}
 
-					if !man.cubeIntersects(idx) { continue }
+					if !man.cubeIntersects(idx, box) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
 						man.getDensities(idx, dir, box, vecBuf, qs, inBox)
 						histogram(qs, inBox, info, hist)
@@ -262,9 +262,9 @@ func (man *HistManager) chanHistogram(
 	out <- worker
 }
 
-// tetIntersects returns true if the cube at idx intersects with the currently
-// loaded sheet.
-func (man *HistManager) cubeIntersects(idx int) bool {
+// cubeIntersects returns true if the cube at idx in the currently loaded sheet
+// intersects with box.
+func (man *HistManager) cubeIntersects(idx int, box *HistBox) bool {
 	w := int(man.hd.GridWidth)
 	ix := idx % w
 	iy := (idx / w) % w
@@ -282,7 +282,7 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 
 	for k := 0; k < 3; k++ {
 		if !intersect1D(
-			float64(man.hd.Origin[k]), float64(man.hd.Width[k]),
+			box.Origin[k], box.Span[k],
 			float64(origin[k]), float64(span[k]), man.hd.TotalWidth,
 		) {
 			return false
@@ -298,9 +298,9 @@ func (man *HistManager) cubeBoundingBox(
 	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
 	origin, span = man.xs[ix + iy*w + iz*w*w], geom.Vec{ }
 
-	for dz := 0; dz < jump; dz += jump {
-		for dy := 0; dy < jump; dy += jump {
-			for dx := 0; dx < jump; dx += jump {
+	for dz := 0; dz <= jump; dz += jump {
+		for dy := 0; dy <= jump; dy += jump {
+			for dx := 0; dx <= jump; dx += jump {
 				// Get the vector in each corner of the Lagrangian cube.
 				x, y, z := ix + dx, iy + dy, iz + dz
 				vec := man.xs[x + y*w + z*w*w]
@@ -317,9 +317,9 @@ func (man *HistManager) cubeBoundingBox(
 					if delta > 0 && delta > span[k] {
 						span[k] = delta
 					} else if delta < 0 {
-						origin[k] -= delta
+						origin[k] += delta
 						if origin[k] < 0 { origin[k] += L }
-						span[k] += delta
+						span[k] -= delta
 					}
 				}
 			}
-- 
2.43.0


From 3d2614e10f81632a9e61b65a2be23ca882a0a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 041/103] fix: values without a bin are ignored

---
 render/hist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index b929c90..b276607 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -423,7 +423,7 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (math.Log10(x[i]) - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			if !(idx >= 0 && idx < fBins) { continue }
 
 			counts[int(idx)]++
 			
@@ -435,7 +435,7 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (x[i] - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			if !(idx >= 0 && idx < fBins) { continue }
 			counts[int(idx)]++	
 		}
 	}
-- 
2.43.0


From 35bd1a98bae69a8c51766a16404f16b190064c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 042/103] fix: workers share the subsampled cubes of a
 histogram

---
 render/hist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index b276607..b8f58d9 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -239,13 +239,13 @@ func (man *HistManager) chanHistogram(
 	// Evaluate whatever quantity is being measured.
 	switch strings.ToLower(man.quantity) {
 	case strings.ToLower("Density"):
+		cube := 0
 		for z := 0; z < segWidth; z += man.skip {
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					cube++
+					if cube%man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx, box) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From c4117ec51ea4bf87c66849a016a1a1bab8e58ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 043/103] fix: HistManager checks the new subsampling length

---
 render/hist.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index b8f58d9..0a2c43c 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -101,8 +101,11 @@ func NewHistManager(
 }
 
 func (man *HistManager) Subsample(skip int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(skip) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
+	} else if man.hd.SegmentWidth % int64(skip) != 0 {
+		log.Fatalf("Skip ingrement is %d, must divide the segment width, %d.",
+			skip, man.hd.SegmentWidth)
 	}
 
 	man.skip = skip
-- 
2.43.0


From 43de1a1a0bbe4b79c8091924e2b1ee9ff47a335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 044/103] fix: histograms report unreadable positions

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 0a2c43c..667901d 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -170,7 +170,8 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 	for bi := range man.boxes {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
-		io.ReadSheetPositionsAt(file, man.xs)
+		err = io.ReadSheetPositionsAt(file, man.xs)
+		if err != nil { return err }
 
 		for id := 0; id < man.workers; id++ {
 			go man.chanHistogram(id, &man.boxes[bi], info, out)
-- 
2.43.0


From 874495609c322b42176cb8d55c4c3be8d0e359dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 045/103] fix: histograms keep tetrahedra across the box's
 faces together

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 667901d..be1d940 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -356,6 +356,7 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[0]], &man.xs[idxBuf[1]],
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
+	man.periodizeTetra(&tet, L)
 	
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
@@ -407,7 +408,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0


From d09de8b4edc475861b4d1ea5973c90ba1af61484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 046/103] fix: sheet headers count every particle

---
 render/main/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 27e7203..ff2b32b 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -375,7 +375,7 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd := &io.SheetHeader{}
 	shd.Cosmo = hd.Cosmo
 	shd.CountWidth = hd.CountWidth
-	shd.Count = hd.Count
+	shd.Count = hd.TotalCount
 	shd.Mass = hd.Mass
 	shd.TotalWidth = hd.TotalWidth
 
-- 
2.43.0


From 072dc0ad1c61169531cd1c45f7628c54b7925d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 047/103] fix: velocity boxes start from the segment's first
 node

---
 render/main/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index ff2b32b..aefcbfa 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -473,8 +473,8 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 
 	// smallidx is the index within the segment.
 	smallIdx := 0
-	vMin := vs[0]
-	vMax := vs[0]
+	vMin := vs[xStart + N * yStart + N2 * zStart]
+	vMax := vMin
 
 	for z := zStart; z < zStart + shd.GridWidth; z++ {
 		zIdx := z
-- 
2.43.0


From 6efb0d7612ff5a9879e8b6d6267009551edfc736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 048/103] fix: XUnits converts the box width too

---
 render/main/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/main/main.go b/render/main/main.go
index aefcbfa..202d7a8 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -284,6 +284,7 @@ func createGrids(
 	for i := range hs {
 		hs[i] = *io.ReadGadgetHeader(catalogs[i], gadgetEndianness, con.InputFormat)
 		hs[i].Mass *= con.MUnits
+		hs[i].TotalWidth *= con.XUnits
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
-- 
2.43.0


From b14b700195409fced43d76152f04cf744b75f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 049/103] fix: Cells must divide the particles on a side

---
 render/main/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 202d7a8..988d485 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -366,6 +366,11 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 
 	log.Println("Writing to directory", outDir)
 
+	if int(hd.CountWidth) % cells != 0 {
+		log.Fatalf("Cells = %d doesn't divide the %d particles on a side.",
+			cells, hd.CountWidth)
+	}
+
 	segmentWidth := int(hd.CountWidth) / cells
 	gridWidth := segmentWidth + 1
 
-- 
2.43.0


From 0ddfb04b403fa83f0afa813729d4b9bded5af06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 050/103] fix: keep converted positions inside the box

---
 render/main/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 988d485..bf5f751 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -335,6 +335,8 @@ func createGrids(
 		for j := range xBuf {
 			for k := 0; k < 3; k++ {
 				xBuf[j][k] *= float32(con.XUnits)
+				// Rounding can push particles onto the box's upper edge.
+				if float64(xBuf[j][k]) >= hs[i].TotalWidth { xBuf[j][k] = 0 }
 				vBuf[j][k] *= float32(con.VUnits)
 			}
 		}
-- 
2.43.0


From 84f559ce1fefaf348927c3d9177be770100a81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 051/103] fix: give every sheet segment its own file name

---
 render/main/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index bf5f751..ce34da9 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -392,13 +392,16 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd.GridCount = int64(shd.GridWidth * shd.GridWidth * shd.GridWidth)
 	shd.Cells = int64(cells)
 
+	// Pad indices so that different segments have different file names.
+	digits := len(fmt.Sprint(cells - 1))
+
 	// Write the data. (x, y, z) indexes over the files.
 	for z := int64(0); z < shd.Cells; z++ {
 		for y := int64(0); y < shd.Cells; y++ {
 			for x := int64(0); x < shd.Cells; x++ {
 				copyToSegment(shd, xs, vs, xsSeg, vsSeg)
 				file := path.Join(outDir, fmt.Sprintf(
-					"sheet%d%d%d.dat", x, y, z,
+					"sheet%0*d%0*d%0*d.dat", digits, x, digits, y, digits, z,
 				))
 				io.WriteSheet(file, shd, xsSeg, vsSeg)
 				runtime.GC()
-- 
2.43.0


From 5273ef61e445a628aec460a31b489b426ccc79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 052/103] fix: refuse to convert incomplete snapshots

---
 render/main/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index ce34da9..58c2ba5 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -288,6 +288,13 @@ func createGrids(
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
+	count := int64(0)
+	for _, h := range hs { count += h.Count }
+	if count != hs[0].TotalCount {
+		log.Fatalf("Snapshot has %d particles, but its files contain %d.",
+			hs[0].TotalCount, count)
+	}
+
 	// Monitor memory usage.
 	ms := &runtime.MemStats{}
 	runtime.ReadMemStats(ms)
-- 
2.43.0


From c3fe5b351aca196a8cf72a09df0e816a1d2db46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 053/103] fix: iterate until a folder is missing when
 IterationEnd isn't set

---
 render/main/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 58c2ba5..2ae1812 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -248,7 +248,9 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 
 	// If the user supplied format strings for iterated output, loop over the
 	// iteration range. Otherwise, just use the supplied snapshot.
-	for i := con.IterationStart; i <= con.IterationEnd; i++ {
+	for i := con.IterationStart;
+		i <= con.IterationEnd || !con.ValidIterationEnd(); i++ {
+
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
 			input = fmt.Sprintf(con.IteratedInput, i)
@@ -256,6 +258,8 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		}
 
 		infos, err := ioutil.ReadDir(input)
+		if os.IsNotExist(err) && !con.ValidIterationEnd() &&
+			i > con.IterationStart { break }
 		if err != nil { log.Fatal(err.Error()) }
 		files := make([]string, len(infos))
 		
-- 
2.43.0


From 6cd96f9efd74f3329a81552dbb4dfa56c20ea2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 054/103] fix: only accept powers of two as SubsampleLength

---
 render/io/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..8f97e31 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -322,7 +322,9 @@ func (con *RenderConfig) ValidParticles() bool {
 	return con.Particles > 0
 }
 func (con *RenderConfig) ValidSubsampleLength() bool {
-	return con.SubsampleLength > 0
+	// True only for powers of two.
+	s := con.SubsampleLength
+	return s > 0 && s & (s - 1) == 0
 }
 func (con *RenderConfig) ValidImagePixels() bool {
 	return con.ImagePixels > 0
-- 
2.43.0


From 34a9fdc27d149834ccbd6f2638476b71a636ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 055/103] fix: refuse balls without a positive radius

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 8f97e31..b942df4 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -351,7 +351,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if !(ball.Radius > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From 83e762ddc7e301645c9ef5655afc7731c541f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 056/103] fix: refuse balls and boxes at NaN

---
 render/io/config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index b942df4..931c70c 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -357,17 +357,17 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
-	if ball.X >= totalWidth || ball.X < 0 {
+	if !(ball.X >= 0 && ball.X < totalWidth) {
 		return fmt.Errorf(
 			"X center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.X,
 		)
-	} else if ball.Y >= totalWidth || ball.Y < 0 {
+	} else if !(ball.Y >= 0 && ball.Y < totalWidth) {
 		return fmt.Errorf(
 			"Y center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.Y,
 		)
-	} else if ball.Z >= totalWidth || ball.Z < 0 {
+	} else if !(ball.Z >= 0 && ball.Z < totalWidth) {
 		return fmt.Errorf(
 			"Z center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.Z,
@@ -443,17 +443,17 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
-	if box.X >= totalWidth || box.X < 0 {
+	if !(box.X >= 0 && box.X < totalWidth) {
 		return fmt.Errorf(
 			"X origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.X,
 		)
-	} else if box.Y >= totalWidth || box.Y < 0 {
+	} else if !(box.Y >= 0 && box.Y < totalWidth) {
 		return fmt.Errorf(
 			"Y origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.Y,
 		)
-	} else if box.Z >= totalWidth || box.Z < 0 {
+	} else if !(box.Z >= 0 && box.Z < totalWidth) {
 		return fmt.Errorf(
 			"Z origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.Z,
-- 
2.43.0


From 592783ea1e21975ba3c456de455eca495c184ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 057/103] fix: refuse boxes with NaN widths

---
 render/io/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 931c70c..7a933ff 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -429,15 +429,15 @@ type BoxConfig struct {
 }
 
 func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
-	if box.XWidth <= 0 {
+	if !(box.XWidth > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive XWidth for Box '%s'", name,
 		)
-	} else if box.YWidth <= 0 {
+	} else if !(box.YWidth > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive YWidth for Box '%s'", name,
 		)
-	} else if box.ZWidth <= 0 {
+	} else if !(box.ZWidth > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive ZWidth for Box '%s'", name,
 		)
-- 
2.43.0


From 92eeec95fb5b4ef50aaac9809c2cffa7cac5b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 058/103] fix: refuse balls with a NaN radius multiplier

---
 render/io/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 7a933ff..f5ac4cf 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -377,9 +377,9 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 	ball.Name = name
 	if ball.RadiusMultiplier == 0 {
 		ball.RadiusMultiplier = 1
-	} else if ball.RadiusMultiplier < 0 {
+	} else if !(ball.RadiusMultiplier > 0) {
 		return fmt.Errorf(
-			"Ball '%s' given a negative radius multiplier, %g.",
+			"Ball '%s' given a non-positive radius multiplier, %g.",
 			name, ball.RadiusMultiplier,
 		)
 	}
-- 
2.43.0


From 509a948bd759c55093d7734be62469cfe28481eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 059/103] fix: keep the origins of balls' boxes inside the
 simulation

---
 render/io/config.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index f5ac4cf..f167cb7 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"gopkg.in/gcfg.v1"
@@ -393,29 +394,23 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
-		box.X = ball.X - rad
-	} else {
-		box.X = ball.X - rad + totalWidth
-	}
-
-	if ball.Y > rad {
-		box.Y = ball.Y - rad
-	} else {
-		box.Y = ball.Y - rad + totalWidth
-	}
-
-	if ball.Z > rad {
-		box.Z = ball.Z - rad
-	} else {
-		box.Z = ball.Z - rad + totalWidth
-	}
+	box.X = periodic(ball.X - rad, totalWidth)
+	box.Y = periodic(ball.Y - rad, totalWidth)
+	box.Z = periodic(ball.Z - rad, totalWidth)
 
 	box.Name = ball.Name
 
 	return box
 }
 
+// periodic wraps x into the range [0, width).
+func periodic(x, width float64) float64 {
+	x = math.Mod(x, width)
+	if x < 0 { x += width }
+	if x >= width { x = 0 }
+	return x
+}
+
 type BoxConfig struct {
 	// Required
 	X, Y, Z float64
-- 
2.43.0


From 8cb09a8f7ef791281acfe189f0d16eaac83fc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 060/103] fix: let balls have a projection axis

---
 render/io/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index f167cb7..9e8ba7d 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -348,6 +348,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -398,6 +399,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	box.Y = periodic(ball.Y - rad, totalWidth)
 	box.Z = periodic(ball.Z - rad, totalWidth)
 
+	box.ProjectionAxis = ball.ProjectionAxis
 	box.Name = ball.Name
 
 	return box
@@ -492,7 +494,11 @@ func ReadBoundsConfig(fname string, totalWidth float64) ([]BoxConfig, error) {
 		if err := ball.CheckInit(name, totalWidth); err != nil {
 			return nil, err
 		}
-		boxes = append(boxes, *ball.Box(totalWidth))
+		box := ball.Box(totalWidth)
+		if err := box.CheckInit(name, totalWidth); err != nil {
+			return nil, err
+		}
+		boxes = append(boxes, *box)
 	}
 	for name, box := range bc.Box {
 		if err := box.CheckInit(name, totalWidth); err != nil {
-- 
2.43.0


From 2c0c669fa9d63c18de597eebd030ad2a69eaa546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 061/103] fix: refuse thread counts that aren't positive

---
 render/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 2ae1812..9ab3773 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -94,6 +94,10 @@ func main() {
 	
 	flag.Parse()
 
+	if render.NumCores <= 0 {
+		log.Fatalf("Invalid 'Threads' value, %d.", render.NumCores)
+	}
+
 	// Figure out the mode and fail with a descriptive error is the user gave 
 	// incorrect flags.
 	modeName, err := getModeName(vars)
-- 
2.43.0


From a1afda5667bc14b0735c5d9d3b5c6d942ba7af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 062/103] fix: check Quantity and HistBins in TetraHist mode

---
 render/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 9ab3773..5ad6b37 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -161,6 +161,10 @@ func main() {
 		} else if !con.ValidHistMin() || !con.ValidHistMax() {
 			log.Fatalf("Invalid ('HistMin', 'HistMax'), (%g, %g).",
 				con.HistMin, con.HistMax)
+		} else if !con.ValidHistBins() {
+			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
+		} else if !con.ValidQuantity() {
+			log.Fatalf("Invalid 'Quantity' value, %s.", con.Quantity)
 		}
 
 		bounds := flag.Args()
-- 
2.43.0


From 77aa1f61d832bd70557cac3f36dd28998293f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 063/103] fix: check Particles in TetraHist mode

---
 render/main/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 5ad6b37..8affb00 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -165,6 +165,8 @@ func main() {
 			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
 		} else if !con.ValidQuantity() {
 			log.Fatalf("Invalid 'Quantity' value, %s.", con.Quantity)
+		} else if con.Particles <= 0 {
+			log.Fatalf("Invalid 'Particles' value, %d.", con.Particles)
 		}
 
 		bounds := flag.Args()
-- 
2.43.0


From 865e89fad29565d0b3f00eee17b9f8569be2efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 064/103] fix: record the particles and pixels that were
 actually used

---
 render/main/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 8affb00..737604e 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -616,7 +616,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 		)
 
 		renderInfo := io.NewRenderInfo(
-			con.Particles, con.TotalPixels, con.SubsampleLength,
+			box.Points(), box.Cells(), con.SubsampleLength,
 			cBox.ProjectionAxis,
 		)
 
-- 
2.43.0


From 615e0e26c3decd9ad4df3dac16cfe72a0cc5d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 065/103] fix: only record projection axes of projected grids

---
 render/main/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 737604e..b1ab68c 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -615,9 +615,12 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			hd.Cosmo.OmegaL, hd.Cosmo.Z, hd.TotalWidth,
 		)
 
+		// Quantities which can't be projected are rendered in 3D.
+		axis := cBox.ProjectionAxis
+		if _, ok := box.ProjectionAxis(); !ok { axis = "" }
+
 		renderInfo := io.NewRenderInfo(
-			box.Points(), box.Cells(), con.SubsampleLength,
-			cBox.ProjectionAxis,
+			box.Points(), box.Cells(), con.SubsampleLength, axis,
 		)
 
 		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
-- 
2.43.0


From e373d0c5335bb88d0be6fd3cedfdd104853f96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 066/103] fix: refuse bounding boxes which share a name

---
 render/main/main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index b1ab68c..63a56eb 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -567,6 +567,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkNames(configBoxes)
 
 	// Figure out which quantity we're rendering.
 	q, ok := density.QuantityFromString(con.Quantity)
@@ -627,6 +628,17 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 	}
 }
 
+// checkNames makes sure that no two boxes would be written to the same file.
+func checkNames(boxes []io.BoxConfig) {
+	names := map[string]bool{}
+	for _, box := range boxes {
+		if names[box.Name] {
+			log.Fatalf("More than one bounding box is named '%s'.", box.Name)
+		}
+		names[box.Name] = true
+	}
+}
+
 // toFloat32 converts a float64 array to a float32 array.
 func toFloat32(xs []float64) []float32 {
 	ys := make([]float32, len(xs))
@@ -805,6 +817,7 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkNames(configBoxes)
 
 	// Figure out cell sizes, pixel sizes, and particle counts.
 	boxes := make([]render.HistBox, len(configBoxes))
-- 
2.43.0


From fd68a65c51a9af3203d5b49fb4d984a1990d5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 067/103] fix: accept queries of tables sorted in decreasing
 order

---
 math/interpolate/search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..bd9f0b2 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,7 +33,9 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	lo, hi := s.x0, s.lim
+	if !s.incr { lo, hi = hi, lo }
+	if x > hi || x < lo {
 		panic(fmt.Sprintf(
 			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
 		))
-- 
2.43.0


From caf78cf0cb9a2905034baedb2da40b57e66ffc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 068/103] fix: look z up in the z table in TriLinear.Eval

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From 72d74d80a27f5997e9081c9a00fb291884150a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 069/103] fix: build splines through two points

---
 math/interpolate/spline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..efdacc8 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -202,6 +202,7 @@ func (sp *Spline) calcY2s() {
 	// zero. Better yet, they could be set to something computed via finite
 	// differences.
 	sp.y2s[0], sp.y2s[n-1] = 0, 0
+	if n == 2 { return }
 
 	xs, ys := sp.xs, sp.ys
 	for i := range rs {
-- 
2.43.0


From dc975c6fa92e0342af21efe81a8df059af0572a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 070/103] fix: accept the end points of decreasing spline
 tables

---
 math/interpolate/spline.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index efdacc8..bb56998 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inBounds(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -134,10 +134,10 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
 	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inBounds(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if !sp.inBounds(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
@@ -161,6 +161,13 @@ func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
 	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
 }
 
+// inBounds returns true if x is within the range of the spline's table.
+func (sp *Spline) inBounds(x float64) bool {
+	lo, hi := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if !sp.incr { lo, hi = hi, lo }
+	return lo <= x && x <= hi
+}
+
 // bsearch returns the the index of the largest element in xs which is smaller
 // than x.
 func (sp *Spline) bsearch(x float64) int {
-- 
2.43.0


From 8607319ee308f94cb8021f165d29a50b0c508c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 071/103] fix: integrate spline segments from any starting
 point

---
 math/interpolate/spline.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index bb56998..9e02569 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -144,21 +144,26 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
+		return sp.integTerm(iLo, lo, hi)
 	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	sum := sp.integTerm(iLo, lo, sp.xs[iLo+1]) +
+		sp.integTerm(iHi, sp.xs[iHi], hi)
 
 	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+		sum += sp.integTerm(i, sp.xs[i], sp.xs[i + 1])
 	}
 	return sum
 }
 
-func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
+// integTerm integrates the ith polynomial, which is written in terms of the
+// distance to the ith point, from lo to hi.
+func (sp *Spline) integTerm(i int, lo, hi float64) float64 {
+	coeff := &sp.coeffs[i]
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
-	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
+	prim := func(dx float64) float64 {
+		return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
+	}
+	return prim(hi - sp.xs[i]) - prim(lo - sp.xs[i])
 }
 
 // inBounds returns true if x is within the range of the spline's table.
-- 
2.43.0


From 702d97562d2321d5900790f0db503cf51470b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 072/103] fix: integrate over decreasing spline tables

---
 math/interpolate/spline.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 9e02569..9b330a9 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -133,7 +133,8 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
-	if lo > hi { return -sp.Integrate(hi, lo) }
+	// The segments are summed in the order of the table.
+	if lo != hi && lo > hi == sp.incr { return -sp.Integrate(hi, lo) }
 	if !sp.inBounds(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-- 
2.43.0


From c5114dfd7db31c2a14fcb72429975294574a149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 073/103] fix: remember only rows that BiCubic could evaluate

---
 math/interpolate/cubic_interpolators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/cubic_interpolators.go b/math/interpolate/cubic_interpolators.go
index 6a81d48..ce0c140 100644
--- a/math/interpolate/cubic_interpolators.go
+++ b/math/interpolate/cubic_interpolators.go
@@ -87,12 +87,12 @@ func (bi *BiCubic) initSplines() {
 
 func (bi *BiCubic) Eval(x, y float64) float64 {
 	if y != bi.lastY {
-		bi.lastY = y
 		for i := range bi.xSplineVals {
 			bi.xSplineVals[i] = bi.ySplines[i].Eval(y)
 		}
 
 		bi.xSpline.Init(bi.xs, bi.xSplineVals)
+		bi.lastY = y
 	}
 
 	return bi.xSpline.Eval(x)
-- 
2.43.0


From 6460608fa9fae54d0035d10dba957665071ec29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 074/103] fix: remember only rows and planes that TriCubic
 could evaluate

---
 math/interpolate/cubic_interpolators.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/math/interpolate/cubic_interpolators.go b/math/interpolate/cubic_interpolators.go
index ce0c140..7749bb2 100644
--- a/math/interpolate/cubic_interpolators.go
+++ b/math/interpolate/cubic_interpolators.go
@@ -2,6 +2,7 @@ package interpolate
 
 import (
 	"fmt"
+	"math"
 )
 
 ////////////////////////////
@@ -239,27 +240,27 @@ func (tri *TriCubic) initSplines() {
 func (tri *TriCubic) Eval(x, y, z float64) float64 {
 	if y != tri.lastY || z != tri.lastZ {
 		if z != tri.lastZ {
-			tri.lastZ = z
-			
 			tri.ySplineVals = make([][]float64, len(tri.xs))
 			for xi := range tri.xs {
 				tri.ySplineVals[xi] = make([]float64, len(tri.ys))
 				for yi := range tri.ys {
 					tri.ySplineVals[xi][yi] =
-						tri.zSplines[yi*tri.nx + xi].Eval(tri.lastZ)
+						tri.zSplines[yi*tri.nx + xi].Eval(z)
 				}
 				tri.ySplines[xi].Init(tri.ys, tri.ySplineVals[xi])
 			}			
+
+			// No row of the new plane has been evaluated yet.
+			tri.lastZ, tri.lastY = z, math.NaN()
 		}
 
-		tri.lastY = y
-		
 		tri.xSplineVals = make([]float64, len(tri.xs))
 		for xi := range tri.xSplineVals {
-			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(tri.lastY)
+			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(y)
 		}
 		
 		tri.xSpline.Init(tri.xs, tri.xSplineVals)
+		tri.lastY = y
 	}
 
 	return tri.xSpline.Eval(x)
-- 
2.43.0


From 3b741b7ef1714a1a1313b3a1561041ce0232d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 075/103] fix: continue periodic signals with their last sample

---
 math/interpolate/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..44e6c69 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -94,7 +94,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
+				case Periodic: x = xs[n + idx]
 				case Reflection: x = xs[-(idx - 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
-- 
2.43.0


From 61f9d8fe0959af2664782cf999c307a758986ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 076/103] fix: mirror signals about their first sample

---
 math/interpolate/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index 44e6c69..e0e9cc3 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -95,7 +95,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx < 0 {
 				switch b {
 				case Periodic: x = xs[n + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Reflection: x = xs[-idx]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
-- 
2.43.0


From ff926013f11318cc5d09357255ed32e032fcc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 077/103] fix: look boundary values up within the signal

---
 math/interpolate/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index e0e9cc3..8e9210e 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,7 +33,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
+		case Periodic: return xs[len(xs) + i]
 		case Reflection: return xs[-(i + 1)]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs [(len(xs)-1) - (i - len(xs))]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
-- 
2.43.0


From 709250c38178769f79e62a244482068030ebcb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 078/103] fix: apply row exchanges to right-hand sides in order

---
 math/mat/mat.go   | 4 +++-
 math/mat/mat32.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..20af358 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -297,8 +297,10 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+	// The rows were exchanged one after another.
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..b7478fa 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -201,8 +201,10 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+	// The rows were exchanged one after another.
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
-- 
2.43.0


From bcbc3ca28e696c146d8476bb7fae695529e9f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 079/103] fix: solve for the right-hand side given to
 SolveMatrix

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 20af358..12d6eab 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -344,7 +344,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index b7478fa..c10be74 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -248,7 +248,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From f99aca78399bfb829474ef3b0f8ea1fad5f80dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 080/103] fix: place products by the width of the result

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 12d6eab..2803016 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -66,7 +66,7 @@ func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index c10be74..440da97 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -59,7 +59,7 @@ func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From 3b90a9f4e24131af380831c0d129770cd88aa0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 081/103] fix: choose the pivot of every column afresh

---
 math/mat/mat.go   | 1 +
 math/mat/mat32.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 2803016..8ddf1f7 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -241,6 +241,7 @@ func (lu *LUFactors) factorizeInPlace() {
 	var imax int
 	for k := 0; k < n; k++ {
 		big := 0.0
+		imax = k
 		for i := k; i < n; i++ {
 			tmp := vv[i] * math.Abs(m.Vals[i*n + k])
 			if tmp > big {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 440da97..12d47c6 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -145,6 +145,7 @@ func (lu *LUFactors32) factorizeInPlace() {
 	var imax int
 	for k := 0; k < n; k++ {
 		big := float32(0.0)
+		imax = k
 		for i := k; i < n; i++ {
 			tmp := vv[i] * float32(math.Abs(float64(m.Vals[i*n + k])))
 			if tmp > big {
-- 
2.43.0


From 04086782478eb53e01a7cb9a2ce478927e565e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 082/103] fix: draw integers below the upper bound for large
 bounds

---
 math/rand/rand.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/rand/rand.go b/math/rand/rand.go
index 6f454df..94ad784 100644
--- a/math/rand/rand.go
+++ b/math/rand/rand.go
@@ -55,8 +55,8 @@ func New(gt GeneratorType, seed uint64) *Generator {
 
 func (gen *Generator) UniformInt(low, high int) int {
 	f := gen.backend.Next()
-	return int(math.Floor(float64(high - low) * f + float64(low)))
-	
+	// Adding low to the fraction first could round up to high.
+	return low + int(math.Floor(float64(high - low) * f))
 }
 
 func (gen *Generator) Uniform(low, high float64) float64 {
-- 
2.43.0


From 55205b0bcdc9cf100927c777e1513f3a3f04b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 083/103] fix: keep uniform draws below the upper bound

---
 math/rand/rand.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/math/rand/rand.go b/math/rand/rand.go
index 94ad784..9a71073 100644
--- a/math/rand/rand.go
+++ b/math/rand/rand.go
@@ -61,13 +61,21 @@ func (gen *Generator) UniformInt(low, high int) int {
 
 func (gen *Generator) Uniform(low, high float64) float64 {
 	if low == 0.0 && high == 1.0 { return gen.backend.Next() }
-	return (gen.backend.Next() * (high - low)) + low
+	return between(gen.backend.Next(), low, high)
 }
 
 func (gen *Generator) UniformAt(low, high float64, target []float64) {
 	gen.backend.NextSequence(target)
 	if low == 0.0 && high == 1.0 { return }
 	for i := range target {
-		target[i] = target[i] * (high - low) + low
+		target[i] = between(target[i], low, high)
 	}
 }
+
+// between maps f in [0, 1) to [low, high).
+func between(f, low, high float64) float64 {
+	x := f * (high - low) + low
+	// Rounding can reach the excluded bound.
+	if low < high && x >= high { x = math.Nextafter(high, low) }
+	return x
+}
-- 
2.43.0


From cc358e95f9dff906e0bba5a0acdd822ba6c795cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 084/103] fix: take the Gray code step of the current Sobol
 point

---
 math/rand/sobol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..09ba0da 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -87,12 +87,11 @@ func (seq *SobolSequence) NextAt(target []float64) {
 		)
 	}
 
-	seq.seqNum++
-
 	zeroIdx := uint32(0)
 	for zeroIdx = 0; zeroIdx < MaxBit; zeroIdx++ {
 		if (seq.seqNum & (1<<zeroIdx)) == 0 { break }
 	}
+	seq.seqNum++
 
 	im := zeroIdx * MaxDim
 	for k := uint32(0); k < dim; k++ {
-- 
2.43.0


From 2a21e2bff1daae6cdad243eb888738ab24555288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 085/103] fix: use the recurrence of the primitive polynomials

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 09ba0da..df3f859 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From 191d75360d74e5ec9a4a6ca62009b1088aa3cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 086/103] fix: restart Sobol sequences from their first point

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index df3f859..e9525f5 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From 40cbc014c7ff70655b82333d19f03e63cb597e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 087/103] fix: divide fourth-order differences by the whole
 stencil

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..ad9dae1 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -44,7 +44,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	} else if order == 4 {
 		for i := 2; i < n - 2; i++ {
 			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
+				(3*(xs[i+2] - xs[i-2]))
 		}
 
 		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-- 
2.43.0


From c835c65aa45d35c2314ccdc037017c28006e7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 088/103] fix: differentiate unevenly spaced tables

---
 math/calc/deriv.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index ad9dae1..4d79e3e 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -35,28 +35,34 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 
 	if order == 0 {
 		for i := range xs { out[i] = xs[i] }
-	} else if order == 2 {
-		for i := 1; i < n - 1; i++ {
-			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
+	} else if order == 2 || order == 4 {
+		if n <= order { panic("Too few points for the given order.") }
+		for i := range out {
+			// Use the order + 1 points closest to point i.
+			lo := i - order / 2
+			if lo > n - 1 - order { lo = n - 1 - order }
+			if lo < 0 { lo = 0 }
+			hi := lo + order + 1
+			out[i] = polyDeriv(xs[lo: hi], ys[lo: hi], i - lo)
 		}
-		out[0] = (-3*ys[0] + 4*ys[1] - ys[2]) / (xs[2] - xs[0])
-		out[n-1] = -(-3*ys[n-1] + 4*ys[n-2] - ys[n-3]) / (xs[n-1] - xs[n-3])
-	} else if order == 4 {
-		for i := 2; i < n - 2; i++ {
-			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-2]))
-		}
-
-		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-			25*ys[0]) / (3*(xs[4] - xs[0])))
-		out[n-2]= ((-3*ys[n-1] - 10*ys[n-2] + 18*ys[n-3] - 6*ys[n-4] +
-			ys[n-5]) / (3*(xs[n-5] - xs[n-1])))
-		out[1]= ((-3*ys[0] - 10*ys[1] + 18*ys[2] - 6*ys[3] +
-			ys[4]) / (3*(xs[4] - xs[0])))
-		out[n-1] = ((-3*ys[n-5] + 16*ys[n-4] - 36*ys[n-3] + 48*ys[n-2] -
-			25*ys[n-1]) / (3*(xs[n-5] - xs[n-1])))
 	} else {
 		panic("Invalid order.")
 	}
 	return out
 }
+
+// polyDeriv computes the derivative at xs[j] of the polynomial which passes
+// through all the given points.
+func polyDeriv(xs, ys []float64, j int) float64 {
+	sum := 0.0
+	for k := range xs {
+		if k == j { continue }
+		weight := 1 / (xs[k] - xs[j])
+		for m := range xs {
+			if m == k || m == j { continue }
+			weight *= (xs[j] - xs[m]) / (xs[k] - xs[m])
+		}
+		sum += weight * (ys[k] - ys[j])
+	}
+	return sum
+}
-- 
2.43.0


From 81be1eb8ca6d5bb130c4b56723401b6e9d9d3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 089/103] fix: wrap halos on the far face of the box

---
 render/halo/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index 5415716..d49a93f 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -41,17 +41,17 @@ func (g *Grid) Length(idx int) int {
 func (g *Grid) Insert(xs, ys, zs []float64) {
 	for i := range xs {
 		x, y, z := xs[i], ys[i], zs[i]
-		if x > g.Width {
+		if x >= g.Width {
 			x -= g.Width
 		} else if x < 0 {
 			x += g.Width
 		}
-		if y > g.Width {
+		if y >= g.Width {
 			y -= g.Width
 		} else if y < 0 {
 			y += g.Width
 		}
-		if z > g.Width {
+		if z >= g.Width {
 			z -= g.Width
 		} else if z < 0 {
 			z += g.Width
-- 
2.43.0


From e47573a00e16bc2a9a41206ec975cc56fc8308e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 090/103] fix: file halos that round up to the far face in the
 first cell

---
 render/halo/grid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index d49a93f..8bdc0d0 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -59,6 +59,11 @@ func (g *Grid) Insert(xs, ys, zs []float64) {
 				
 
 		ix, iy, iz := int(x/g.cw), int(y/g.cw), int(z/g.cw)
+		// Positions just inside the far face can round up to it, which is
+		// where the box starts again.
+		if ix >= g.Cells { ix = 0 }
+		if iy >= g.Cells { iy = 0 }
+		if iz >= g.Cells { iz = 0 }
 		idx := ix + iy * g.Cells + iz * g.Cells * g.Cells
 
 		g.Next[i] = g.Heads[idx]
-- 
2.43.0


From cf1c22f3626cf94fa4f564e7c28dc685faf0a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 091/103] fix: bound spheres wider than the box

---
 render/halo/finder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index ff98df4..3b8c453 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -21,11 +21,19 @@ type Bounds struct {
 func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 	for i := 0; i < 3; i++ {
 		min, max := pos[i] - r, pos[i] + r
-		if min < 0 { min += width }
-		if min > max { max +=  width }
+		if 2*r >= width {
+			// The sphere covers the whole box.
+			min, max = 0, width
+		} else if min < 0 {
+			min, max = min + width, max + width
+		}
 		minCell, maxCell := int(min / cw), int(max / cw)
 		b.Origin[i] = minCell
 		b.Span[i] = maxCell - minCell + 1
+
+		// Cells must not be repeated, even if both ends are in the same one.
+		cells := int(width / cw + 0.5)
+		if b.Span[i] > cells { b.Span[i] = cells }
 	}
 }
 
-- 
2.43.0


From 2bac0ffd4246e95ce906207ab06db49f8adfc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 092/103] fix: convert indices a whole box past the bounds

---
 render/halo/finder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 3b8c453..c337ed1 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -40,11 +40,11 @@ func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 // ConvertIndices converts non-periodic indices to periodic indices.
 func (b *Bounds) ConvertIndices(x, y, z, width int) (bx, by, bz int) {
 	bx = x - b.Origin[0]
-	if bx < 0 { bx += width }
+	if bx < 0 { bx += width } else if bx >= width { bx -= width }
 	by = y - b.Origin[1]
-	if by < 0 { by += width }
+	if by < 0 { by += width } else if by >= width { by -= width }
 	bz = z - b.Origin[2]
-	if bz < 0 { bz += width }
+	if bz < 0 { bz += width } else if bz >= width { bz -= width }
 	return bx, by, bz
 }
 
-- 
2.43.0


From e339faad372c3bf700cd5d87602e5408e03541a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 093/103] fix: measure halo distances across the boundaries

---
 render/halo/finder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index c337ed1..0c4a409 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -1,6 +1,7 @@
 package halo
 
 import (
+	"math"
 	"sort"
 )
 
@@ -226,13 +227,19 @@ func (sf *SubhaloFinder) markSubhalos(
 	for _, j := range idxs {
 		if j <= ih { continue }
 		sx, sy, sz, sr := xs[j], ys[j], zs[j], rs[j]
-		dx, dy, dz, dr := hx - sx, hy - sy, hz - sz, hr + sr
+		dx, dy, dz, dr := sf.dist(hx, sx), sf.dist(hy, sy), sf.dist(hz, sz), hr + sr
 		if dr*dr >= dx*dx + dy*dy + dz*dz {
 			sf.subhalos = append(sf.subhalos, j)
 		}
 	}
 }
 
+// dist is the distance between two coordinates in the periodic box.
+func (sf *SubhaloFinder) dist(x1, x2 float64) float64 {
+	d := math.Abs(x1 - x2)
+	return math.Min(d, sf.g.Width - d)
+}
+
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
 	max := xs[len(xs) - 1]
-- 
2.43.0


From 7a2a07befaa7ec0ee568c2ad0d3cf81511d5a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 094/103] fix: leave the radii given to FindSubhalos alone

---
 render/halo/finder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 0c4a409..64c5225 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -82,6 +82,8 @@ func (sf *SubhaloFinder) FindSubhalos(
 	c := sf.g.Cells
 	
 	buf := make([]int, 0, sf.g.MaxLength())
+	// A copy, since scaling back would not give the same radii.
+	rs = append([]float64{}, rs...)
 	for i := range rs { rs[i] *= mult }
 	cMax := cumulativeMax(rs)
 
@@ -116,7 +118,6 @@ func (sf *SubhaloFinder) FindSubhalos(
 	}
 
 	sf.crossMatch()
-	for i := range rs { rs[i] /= mult }
 }
 
 func (sf *SubhaloFinder) StartEnd(ih int) (start, end int) {
-- 
2.43.0


From d5f7336753a3b0b3f7ac673cc539d83029c86d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 095/103] fix: start each subhalo search afresh

---
 render/halo/finder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 64c5225..cf9d562 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -77,6 +77,9 @@ func NewSubhaloFinder(g *Grid) *SubhaloFinder {
 func (sf *SubhaloFinder) FindSubhalos(
 	xs, ys, zs, rs []float64, mult float64,
 ) {
+	// Forget the results of previous searches.
+	sf.subhalos = nil
+
 	b := &Bounds{}
 	pos := [3]float64{}
 	c := sf.g.Cells
-- 
2.43.0


From 06fbba2469bd1eaa6e614702d6df1cec6fcf356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 096/103] fix: search catalogs without halos

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index cf9d562..8501d6a 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -246,6 +246,7 @@ func (sf *SubhaloFinder) dist(x1, x2 float64) float64 {
 
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
+	if len(xs) == 0 { return ms }
 	max := xs[len(xs) - 1]
 	for i := len(xs) - 1; i >= 0; i-- {
 		x := xs[i]
-- 
2.43.0


From 49dc521374b6aba60dd6caf5af0d260463e19ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 097/103] fix: close binary halo catalogs

---
 render/halo/io.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/io.go b/render/halo/io.go
index 3765abe..9b671a3 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -269,6 +269,7 @@ func asciiColGetter(file string, colIdxs []int) ([][]float64, error) {
 func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	f, err := os.Open(file)
 	if err != nil { return nil, err }
+	defer f.Close()
 
 	n := int64(0)
 	err = binary.Read(f, binary.LittleEndian, &n)
-- 
2.43.0


From 38679e08c72aed9cf5dcc866a231514b576d21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 098/103] fix: refuse columns binary catalogs do not have

---
 render/halo/io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/halo/io.go b/render/halo/io.go
index 9b671a3..959f854 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -2,6 +2,7 @@ package halo
 
 import (
 	"encoding/binary"
+	"fmt"
 	"os"
 	"sort"
 
@@ -279,7 +280,9 @@ func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	cols := make([][]float64, len(colIdxs))
 	for i := range cols { cols[i] = make([]float64, n) }
 	for i, colIdx := range colIdxs {
-		if colIdx > int(valNum) { panic("Impossibly large colIdx.") }
+		if colIdx < 0 || colIdx >= int(valNum) {
+			return nil, fmt.Errorf("There is no column %d.", colIdx)
+		}
 		_, err = f.Seek(8 + jump * int64(colIdx), 0)
 		if err != nil { return nil, err }
 		err = binary.Read(f, binary.LittleEndian, cols[i])
-- 
2.43.0


From 970d3ca532a2cfc45c14e6dfb94c19537fceb1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 099/103] fix: refuse binary catalogs of the wrong size

---
 render/halo/io.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/render/halo/io.go b/render/halo/io.go
index 959f854..de73af0 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -276,6 +276,15 @@ func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	err = binary.Read(f, binary.LittleEndian, &n)
 	if err != nil { return nil, err }
 
+	info, err := f.Stat()
+	if err != nil { return nil, err }
+	size := info.Size() - 8
+	if n != size / (8 * int64(valNum)) || size % (8 * int64(valNum)) != 0 {
+		return nil, fmt.Errorf(
+			"%s has %d bytes of data, which is not %d halos.", file, size, n,
+		)
+	}
+
 	jump := n * 8
 	cols := make([][]float64, len(colIdxs))
 	for i := range cols { cols[i] = make([]float64, n) }
-- 
2.43.0


From 9c1dbe0f7bee942cde3fb9067dbcaced23095d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 100/103] fix: keep the high words of Gadget particle counts

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7126784..24a3b0b 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -103,8 +103,8 @@ func readInt32(r io.Reader, order binary.ByteOrder) int32 {
 func (gh *gadgetHeader) Standardize() *CatalogHeader {
 	h := &CatalogHeader{}
 
-	h.Count = int64(gh.NPart[1] + gh.NPart[0]<<32)
-	h.TotalCount = int64(gh.NPartTotal[1] + gh.NPartTotal[0]<<32)
+	h.Count = int64(gh.NPart[1]) + int64(gh.NPart[0])<<32
+	h.TotalCount = int64(gh.NPartTotal[1]) + int64(gh.NPartTotal[0])<<32
 	h.Mass = float64(gh.Mass[1])
 	h.TotalWidth = float64(gh.BoxSize)
 	h.Width = -1.0
-- 
2.43.0


From f57c5247a52b2cf1fd76f520c96ab968bc33d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:38 +0000
Subject: [PATCH 101/103] fix: ConvertSnapshot writes the log and profile files
 its example documents

---
 render/main/main.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 63a56eb..65716b5 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -31,6 +31,28 @@ type FileGroup struct {
 	log, prof *os.File
 }
 
+// newFileGroup opens the log and profile files which con asks for and starts
+// writing to them.
+func newFileGroup(con *io.SharedConfig) *FileGroup {
+	var err error
+	fg := new(FileGroup)
+
+	if con.ValidLogFile() {
+		fg.log, err = os.Create(con.LogFile)
+		if err != nil { log.Fatal(err.Error()) }
+		log.SetOutput(fg.log)
+	}
+
+	if con.ValidProfileFile() {
+		fg.prof, err = os.Create(con.ProfileFile)
+		if err != nil { log.Fatal(err.Error()) }
+		err = pprof.StartCPUProfile(fg.prof)
+		if err != nil { log.Fatal(err.Error()) }
+	}
+
+	return fg
+}
+
 // Close closes the files inside FileGroup.
 func (fg *FileGroup) Close() {
 	if fg.log != nil {
@@ -251,6 +273,9 @@ func getModeName(vars map[string]*string) (string, error) {
 // lGadget2Main converts a set of LGadget-2 snapshots to gotetra files
 // based on the input config file.
 func lGadget2Main(con *io.ConvertSnapshotConfig) {
+	fg := newFileGroup(&con.SharedConfig)
+	defer fg.Close()
+
 	if !con.ValidIteratedInput() {
 		con.IterationStart = 0
 		con.IterationEnd = 0
-- 
2.43.0


From 9d1c5aeffb505bd7f8bd813181b5c4fbfdb6bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:48 +0000
Subject: [PATCH 102/103] fix: histograms keep points next to the grid's upper
 edge inside it

---
 render/hist.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index be1d940..3cb37dc 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -398,6 +398,8 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 
 		if delta < 0 || delta >= hd.Loc.Span[k] { return -1 }
 		idx[k] = int(delta / hd.Loc.PixelWidth)
+		// Rounding can carry points next to the grid's upper edge past it.
+		if n := int(hd.Loc.PixelSpan[k]); idx[k] >= n { idx[k] = n - 1 }
 	}
 	
 	
-- 
2.43.0


From 56af66fd056c13555a4a6428d7584b5920ec2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 103/103] fix: suggest deeper projections for subsampled
 renders

---
 render/io/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index 0228c3e..e03bb0c 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -120,7 +120,7 @@ func NewRenderInfo(particles, totalCells, skip int, axisStr string) RenderInfo {
 	
 func projectionDepth(particles, totalCells, skip int) int {
 	proj := (20000.0 / float64(particles)) *
-		math.Pow(float64(totalCells) / 5000, 3) /
+		math.Pow(float64(totalCells) / 5000, 3) *
 		math.Pow(float64(skip), 3)
 	
 	return int(math.Ceil(proj))
-- 
2.43.0

