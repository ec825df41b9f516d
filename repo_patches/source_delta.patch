From 6607763a7e00ca92ab1a7e8985546eacf1127450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 01/32] fix: SetCon must clear the old connection before
 storing the new one

The upstream C++ masks with '& ~'; the port used xor, so overwriting a
connection left bits of the old value behind.
---
 recast/recast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/recast.go b/recast/recast.go
index dd10b7c..6d6fd86 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -238,7 +238,7 @@ func init() {
 func SetCon(s *CompactSpan, dir, i int32) {
 	shift := uint32(uint32(dir * 6))
 	con := uint32(s.Con)
-	s.Con = (con ^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
+	s.Con = (con &^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
 }
 
 // GetCon gets neighbor connection data for the specified direction.
-- 
2.43.0


From 0fd678dca2aacbe41fbd34a6d62cca5bb503b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 02/32] fix: orientation tests overflow on grids wider than
 32767 cells

---
 recast/contour.go | 4 ++--
 recast/mesh.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index c5e07f5..fd86bde 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -782,8 +782,8 @@ func next(i, n int32) int32 {
 	return 0
 }
 
-func area2(a, b, c []int32) int32 {
-	return (b[0]-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(b[2]-a[2])
+func area2(a, b, c []int32) int64 {
+	return int64(b[0]-a[0])*int64(c[2]-a[2]) - int64(c[0]-a[0])*int64(b[2]-a[2])
 }
 
 // Exclusive or: true iff exactly one argument is true.
diff --git a/recast/mesh.go b/recast/mesh.go
index 1596911..6547154 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -319,8 +319,8 @@ func countPolyVerts(p []uint16, nvp int32) int32 {
 }
 
 func uleft(a, b, c []uint16) bool {
-	return (int32(b[0])-int32(a[0]))*(int32(c[2])-int32(a[2]))-
-		(int32(c[0])-int32(a[0]))*(int32(b[2])-int32(a[2])) < 0
+	return (int64(b[0])-int64(a[0]))*(int64(c[2])-int64(a[2]))-
+		(int64(c[0])-int64(a[0]))*(int64(b[2])-int64(a[2])) < 0
 }
 
 // Returns T iff (v_i, v_j) is a proper internal *or* external
-- 
2.43.0


From d059fc0d50b23a54986275634c6f9f41bfe458d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 03/32] fix: addVertex never matches a vertex lying below the
 new one

---
 recast/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 6547154..403ac59 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -112,7 +112,7 @@ func addVertex(x, y, z uint16, verts []uint16, firstVert, nextVert []int32, nv *
 
 	for i != -1 {
 		v := verts[i*3:]
-		if v[0] == x && (iAbs(int32(v[1]-y)) <= 2) && v[2] == z {
+		if v[0] == x && (iAbs(int32(v[1])-int32(y)) <= 2) && v[2] == z {
 			return uint16(i)
 		}
 		i = nextVert[i] // next
-- 
2.43.0


From 0028aa0a9ba39e1ab7805b4aa6835b44f547cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 04/32] fix: vertex offsets overflow 16 bits in tiles with more
 than 21845 vertices

---
 detour/mesh.go          | 16 ++++++++--------
 detour/navmeshcreate.go | 16 ++++++++--------
 detour/query.go         | 24 ++++++++++++------------
 3 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 82ac9ca..579b811 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -815,7 +815,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 			continue
 		}
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = tile.Verts[poly.Verts[0]*3 : poly.Verts[0]*3+3]
+		var v d3.Vec3 = tile.Verts[int(poly.Verts[0])*3 : int(poly.Verts[0])*3+3]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1046,7 +1046,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1086,7 +1086,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		)
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				vidx := poly.Verts[t[k]] * 3
+				vidx := int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[vidx : vidx+3]
 			} else {
 				vidx := (pd.VertBase + uint32(t[k]-poly.VertCount)) * 3
@@ -1179,7 +1179,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		}
 
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = target.Verts[targetPoly.Verts[1]*3:]
+		var v d3.Vec3 = target.Verts[int(targetPoly.Verts[1])*3:]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1276,8 +1276,8 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			}
 
 			// Create new links
-			va := tile.Verts[poly.Verts[j]*3:]
-			vb := tile.Verts[poly.Verts[(j+1)%int32(nv)]*3:]
+			va := tile.Verts[int(poly.Verts[j])*3:]
+			vb := tile.Verts[int(poly.Verts[(j+1)%int32(nv)])*3:]
 			nei := make([]PolyRef, 4)
 			neia := make([]float32, 4*2)
 			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
@@ -1356,9 +1356,9 @@ func (m *NavMesh) findConnectingPolys(
 				continue
 			}
 
-			idx := poly.Verts[j] * 3
+			idx := int(poly.Verts[j]) * 3
 			vc := tile.Verts[idx : idx+3]
-			idx = poly.Verts[(j+1)%nv] * 3
+			idx = int(poly.Verts[(j+1)%nv]) * 3
 			vd := tile.Verts[idx : idx+3]
 			bpos := slabCoord(vc, side)
 
diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5512bd1..4c6596d 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -291,9 +291,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 		} else {
 			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
-			it.BMin[0] = params.Verts[p[0]*3+0]
-			it.BMin[1] = params.Verts[p[0]*3+1]
-			it.BMin[2] = params.Verts[p[0]*3+2]
+			it.BMin[0] = params.Verts[int(p[0])*3+0]
+			it.BMin[1] = params.Verts[int(p[0])*3+1]
+			it.BMin[2] = params.Verts[int(p[0])*3+2]
 
 			it.BMax[0] = it.BMin[0]
 			it.BMax[1] = it.BMin[1]
@@ -303,9 +303,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				if p[j] == meshNullIdx {
 					break
 				}
-				x := params.Verts[p[j]*3+0]
-				y := params.Verts[p[j]*3+1]
-				z := params.Verts[p[j]*3+2]
+				x := params.Verts[int(p[j])*3+0]
+				y := params.Verts[int(p[j])*3+1]
+				z := params.Verts[int(p[j])*3+2]
 
 				if x < it.BMin[0] {
 					it.BMin[0] = x
@@ -831,7 +831,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// The nav polygon vertices are stored as the first vertices on each mesh.
 	// We compress the mesh data by skipping them and using the navmesh coordinates.
 	if params.DetailMeshes != nil && len(params.DetailMeshes) > 0 {
-		var vbase uint16
+		var vbase int32
 		for i2 := int32(0); i2 < params.PolyCount; i2++ {
 			dtl := &navDMeshes[i2]
 			vb := params.DetailMeshes[i2*4+0]
@@ -845,7 +845,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			if ndv-nv != 0 {
 				start, length := int32(vb+nv)*3, 3*int32(ndv-nv)
 				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
-				vbase += uint16(ndv - nv)
+				vbase += int32(ndv - nv)
 			}
 		}
 		// Store triangles.
diff --git a/detour/query.go b/detour/query.go
index 1dd9e18..51e9c2e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -830,7 +830,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if fromTile.Links[i].Ref == to {
 				// TODO: AR, repass here and test
 				v := fromTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, fromTile.Verts[vidx:vidx+3])
 				copy(right, fromTile.Verts[vidx:vidx+3])
 				return Success
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
@@ -858,9 +858,9 @@ func (q *NavMeshQuery) portalPoints8(
 	v1 := fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount]
 
 	// TODO: AR TO BE TESTED!
-	v0idx := v0 * 3
+	v0idx := int(v0) * 3
 	copy(left, fromTile.Verts[v0idx:v0idx+3])
-	v1idx := v1 * 3
+	v1idx := int(v1) * 3
 	copy(right, fromTile.Verts[v1idx:v1idx+3])
 
 	// If the link is at tile boundary, clamp the vertices to
@@ -958,9 +958,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		vidx := poly.Verts[0] * 3
+		vidx := int(poly.Verts[0]) * 3
 		v0 = tile.Verts[vidx : vidx+3]
-		vidx = poly.Verts[1] * 3
+		vidx = int(poly.Verts[1]) * 3
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
@@ -983,7 +983,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1023,7 +1023,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var k int
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				idx = int(poly.Verts[t[k]] * 3)
+				idx = int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[idx : idx+3]
 			} else {
 				idx = int((pd.VertBase + uint32(t[k]-poly.VertCount)) * 3)
@@ -1065,7 +1065,7 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 		nv    int32
 	)
 	for i := uint8(0); i < poly.VertCount; i++ {
-		copy(verts[nv*3:nv*3+3], tile.Verts[poly.Verts[i]*3:poly.Verts[i]*3+3])
+		copy(verts[nv*3:nv*3+3], tile.Verts[int(poly.Verts[i])*3:int(poly.Verts[i])*3+3])
 		nv++
 	}
 
@@ -1317,12 +1317,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 				continue
 			}
 			// Calc polygon bounds.
-			vidx := p.Verts[0] * 3
+			vidx := int(p.Verts[0]) * 3
 			v := tile.Verts[vidx : vidx+3]
 			bmin.Assign(v)
 			bmax.Assign(v)
 			for j := uint8(1); j < p.VertCount; j++ {
-				vidx = p.Verts[j] * 3
+				vidx = int(p.Verts[j]) * 3
 				v = tile.Verts[vidx : vidx+3]
 				d3.Vec3Min(bmin, v)
 				d3.Vec3Max(bmax, v)
@@ -1486,7 +1486,7 @@ func (q *NavMeshQuery) Raycast(
 		// Collect vertices.
 		var nv int
 		for i := 0; i < int(poly.VertCount); i++ {
-			copy(verts[nv*3:], tile.Verts[poly.Verts[i]*3:3+poly.Verts[i]*3])
+			copy(verts[nv*3:], tile.Verts[int(poly.Verts[i])*3:3+int(poly.Verts[i])*3])
 			nv++
 		}
 
-- 
2.43.0


From 31bbc42d64a10884bab94c38388b08256e9d6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 05/32] fix: tile box query panics on tiles without a bounding
 volume tree

---
 detour/mesh.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 579b811..a67b47e 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -904,7 +904,7 @@ func (m *NavMesh) queryPolygonsInTile(
 	polys []PolyRef,
 	maxPolys int32) int32 {
 
-	if tile.BvTree != nil {
+	if len(tile.BvTree) > 0 {
 		var (
 			node            *BvNode
 			nodeIdx, endIdx int32
@@ -974,19 +974,21 @@ func (m *NavMesh) queryPolygonsInTile(
 			continue
 		}
 		// Calc polygon bounds.
-		v := tile.Verts[p.Verts[0]*3 : 3]
+		vidx := int(p.Verts[0]) * 3
+		v := tile.Verts[vidx : vidx+3]
 		d3.Vec3(bmin[:]).Assign(v)
 		d3.Vec3(bmax[:]).Assign(v)
 		var j uint8
 		for j = 1; j < p.VertCount; j++ {
-			v = tile.Verts[p.Verts[j]*3 : 3]
+			vidx = int(p.Verts[j]) * 3
+			v = tile.Verts[vidx : vidx+3]
 			d3.Vec3Min(bmin[:], v)
 			d3.Vec3Max(bmax[:], v)
 		}
 		if OverlapBounds(qmin, qmax, bmin[:], bmax[:]) {
 			if n < maxPolys {
-				n++
 				polys[n] = base | PolyRef(i)
+				n++
 			}
 		}
 	}
-- 
2.43.0


From d2a2917a95fc4a90bebf071e182445ad28e5614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 06/32] fix: box queries end the process when a tile without
 tree has off-mesh polygons or results are collected

---
 detour/polyquery.go | 2 --
 detour/query.go     | 2 --
 2 files changed, 4 deletions(-)

diff --git a/detour/polyquery.go b/detour/polyquery.go
index f3fd922..4042b39 100644
--- a/detour/polyquery.go
+++ b/detour/polyquery.go
@@ -1,7 +1,6 @@
 package detour
 
 import (
-	"log"
 	"math"
 
 	"github.com/arl/gogeo/f32/d3"
@@ -97,7 +96,6 @@ func (q *collectPolysQuery) process(tile *MeshTile, polys []*Poly, refs []PolyRe
 		toCopy = numLeft
 	}
 
-	log.Fatal("untested")
 	copy(q.polys[q.numCollected:], refs[0:toCopy])
 	q.numCollected += toCopy
 }
diff --git a/detour/query.go b/detour/query.go
index 51e9c2e..31ba36a 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1307,8 +1307,6 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			p := &tile.Polys[i]
 			// Do not return off-mesh connection polygons.
 			if p.Type() == polyTypeOffMeshConnection {
-
-				log.Fatalf("do return off-mesh connection polygons")
 				continue
 			}
 			// Must pass filter
-- 
2.43.0


From f4f273caae9c8d6b0a7ea0b945acf0f9377655c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 07/32] fix: portal to an off-mesh connection uses the vertices
 of the wrong polygon

---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 31ba36a..833d112 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := int(fromPoly.Verts[v]) * 3
+				vidx := int(toPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
-- 
2.43.0


From 12b7772cbba39cd065195b8a77cdaaab885d83fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 08/32] fix: FindStraightPath panics when crossings fill the
 buffer before an invalid polygon

---
 detour/query.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 833d112..87a2f98 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -494,9 +494,12 @@ func (q *NavMeshQuery) FindStraightPath(
 					}
 
 					// Ignore status return value as we're just about to return anyway.
-					q.appendVertex(closestEndPos, 0, path[i],
-						straightPath, straightPathFlags, straightPathRefs,
-						&count)
+					// The crossings may have filled the buffer already.
+					if count < len(straightPath) {
+						q.appendVertex(closestEndPos, 0, path[i],
+							straightPath, straightPathFlags, straightPathRefs,
+							&count)
+					}
 
 					stat = Success | PartialResult
 					if count >= len(straightPath) {
-- 
2.43.0


From 4a0b22724b1305d17e0cfe3b484d99194d52cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 09/32] fix: off-mesh connection flags and side overwrite
 vertex bytes in tile data

---
 detour/tile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/tile.go b/detour/tile.go
index 31dcf75..9a57d2c 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -191,8 +191,8 @@ func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
 		o.Pos[5] = math.Float32frombits(little.Uint32(src[off+20:]))
 		o.Rad = math.Float32frombits(little.Uint32(src[off+24:]))
 		o.Poly = little.Uint16(src[off+28:])
-		o.Flags = src[30]
-		o.Side = src[31]
+		o.Flags = src[off+30]
+		o.Side = src[off+31]
 		o.UserID = little.Uint32(src[off+32:])
 		off += 36
 	}
@@ -286,8 +286,8 @@ func serializeTileData(dst []byte,
 		little.PutUint32(dst[off+20:], uint32(math.Float32bits(o.Pos[5])))
 		little.PutUint32(dst[off+24:], uint32(math.Float32bits(o.Rad)))
 		little.PutUint16(dst[off+28:], o.Poly)
-		dst[30] = o.Flags
-		dst[31] = o.Side
+		dst[off+30] = o.Flags
+		dst[off+31] = o.Side
 		little.PutUint32(dst[off+32:], o.UserID)
 		off += 36
 	}
-- 
2.43.0


From 3ae5b3d714362480a38be3b7f423a383152b28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 10/32] fix: CreateNavMeshData panics when no bounding volume
 tree is wanted

---
 detour/navmeshcreate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 4c6596d..6f049b9 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -719,7 +719,6 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	navDMeshes := make([]PolyDetail, params.PolyCount)
 	navDVerts := make([]float32, 3*uniqueDetailVertCount)
 	navDTris := make([]uint8, 4*detailTriCount)
-	navBvtree := make([]BvNode, params.PolyCount*2)
 	offMeshCons := make([]OffMeshConnection, storedOffMeshConCount)
 
 	// Fill header
@@ -747,6 +746,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	if params.BuildBvTree {
 		hdr.BvNodeCount = params.PolyCount * 2
 	}
+	navBvtree := make([]BvNode, hdr.BvNodeCount)
 
 	offMeshVertsBase := params.VertCount
 	offMeshPolyBase := params.PolyCount
-- 
2.43.0


From 4ad877a77d71a13973e5bbb414017bb83fc804a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 11/32] fix: erosion distances wrapped around in 8 bits and
 eroded the middle of wide open ground

---
 recast/area.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 8f2b833..e7cf8a8 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
-- 
2.43.0


From 23043dbf278d3d115d16f0c69fa5aaa3ba667ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 12/32] fix: convex area marking took the bounds of only the
 first third of the polygon's vertices

---
 recast/area.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/area.go b/recast/area.go
index e7cf8a8..95b3cf1 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -222,7 +222,7 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
-	for i := int32(1); i*3 < nverts; i++ {
+	for i := int32(1); i < nverts; i++ {
 		v := verts[i*3:]
 		d3.Vec3Min(bmin[:], v)
 		d3.Vec3Max(bmax[:], v)
-- 
2.43.0


From c6ebb2cba0b7423fab49d9d8d46b3855acb44828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 13/32] fix: a convex volume counted its coordinates as
 vertices

---
 recast/inputgeom.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index eec5939..782a5a5 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -216,10 +216,9 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	}
 	vol := &ig.volumes[ig.volumeCount]
 	ig.volumeCount++
-	copy(vol.Verts[:], verts)
+	vol.NVerts = int32(copy(vol.Verts[:], verts)) / 3
 	vol.HMin = minh
 	vol.HMax = maxh
-	vol.NVerts = int32(len(verts))
 	vol.Area = int32(area)
 }
 
-- 
2.43.0


From 37b2e78266f091362b120c86de86c07af88ff671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 14/32] fix: mesh adjacency numbered edges in 16 bits and lost
 neighbours in meshes with more than 65535 edges

---
 recast/mesh.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 403ac59..e6da211 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -11,7 +11,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	// http://www.terathon.com/code/edges.php
 
 	maxEdgeCount := npolys * vertsPerPoly
-	firstEdge := make([]uint16, nverts+maxEdgeCount)
+	firstEdge := make([]int32, nverts+maxEdgeCount)
 	nextEdge := firstEdge[nverts:]
 	var edgeCount int32
 
@@ -21,7 +21,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	}
 
 	for i := int32(0); i < nverts; i++ {
-		firstEdge[i] = meshNullIdx
+		firstEdge[i] = -1
 	}
 
 	for i := int32(0); i < npolys; i++ {
@@ -48,7 +48,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				edge.polyEdge[1] = 0
 				// Insert edge
 				nextEdge[edgeCount] = firstEdge[v0]
-				firstEdge[v0] = uint16(edgeCount)
+				firstEdge[v0] = edgeCount
 				edgeCount++
 			}
 		}
@@ -68,7 +68,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				v1 = t[j+1]
 			}
 			if v0 > v1 {
-				for e := uint16(firstEdge[v1]); e != meshNullIdx; e = nextEdge[e] {
+				for e := firstEdge[v1]; e != -1; e = nextEdge[e] {
 					edge := edges[e]
 					if edge.vert[1] == v0 && edge.poly[0] == edge.poly[1] {
 						edge.poly[1] = uint16(i)
-- 
2.43.0


From b86f6c2a02ce39377255fb697232979eff84afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:16 +0000
Subject: [PATCH 15/32] fix: initialising a mesh accepted tile and polygon
 counts that leave no salt bits when their bits exceed 32

---
 detour/mesh.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index a67b47e..bc73433 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -242,6 +242,11 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 //
 // Return the status flags for the operation.
 func (m *NavMesh) Init(params *NavMeshParams) Status {
+	// A count above 1<<24 leaves less than 8 bits for the salt.
+	if params.MaxTiles > 1<<24 || params.MaxPolys > 1<<24 {
+		return Status(Failure | InvalidParam)
+	}
+
 	m.Params = *params
 	m.Orig = d3.NewVec3From(params.Orig[0:3])
 	m.TileWidth = params.TileWidth
@@ -275,7 +280,8 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 	}
 
 	// if m.saltBits < 10 {
-	if m.saltBits < 8 {
+	// saltBits wraps around when the tile and polygon bits exceed 32.
+	if m.tileBits+m.polyBits > 24 {
 		return Status(Failure | InvalidParam)
 	}
 
-- 
2.43.0


From 31a681873509e12c28417a768f999a7cb8c2123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:31 +0000
Subject: [PATCH 16/32] fix: adding a tile to a full tile table or at a taken
 reference ended the process

---
 detour/mesh.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index bc73433..473ba26 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -4,7 +4,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"log"
 	"math"
 	"os"
 	"unsafe"
@@ -342,7 +341,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-			log.Fatalln("tileIndex >= m.m_maxTiles", tileIndex, m.MaxTiles)
 			return Failure | OutOfMemory, 0
 		}
 		// Try to find the specific tile id from the free list.
@@ -355,7 +353,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		}
 		// Could not find the correct location.
 		if tile != target {
-			log.Fatalln("couldn't find the correct tile location")
 			return Failure | OutOfMemory, 0
 		}
 		// Remove from freelist
@@ -371,7 +368,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Make sure we could allocate a tile.
 	if tile == nil {
-		log.Fatalln("couldn't allocate tile")
 		return Failure | OutOfMemory, 0
 	}
 
-- 
2.43.0


From 05f49c4e1fc0060721d6c706791bc721f94b187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:32 +0000
Subject: [PATCH 17/32] fix: removing a tile from a slot that holds none
 panicked

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 473ba26..c8595c0 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -462,7 +462,7 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 		return data, Failure | InvalidParam
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return data, Failure | InvalidParam
 	}
 	if tile.Data != nil {
-- 
2.43.0


From 386002becede00c37d058755482626b039f7663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 18/32] fix: single tile initialisation used the tile flags as
 a tile reference

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index c8595c0..80eccda 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -230,7 +230,11 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 		return status
 	}
 
-	status, _ = m.AddTile(data, TileRef(flags))
+	status, ref := m.AddTile(data, 0)
+	if StatusFailed(status) {
+		return status
+	}
+	m.TileByRef(ref).Flags = int32(flags)
 	return status
 }
 
-- 
2.43.0


From b4d9a3062079937c754482bac41fe59382cc6680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:34 +0000
Subject: [PATCH 19/32] fix: adding a tile without links panicked

---
 detour/mesh.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 80eccda..8d112bd 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -388,8 +388,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	}
 
 	// Build links freelist
-	tile.LinksFreeList = 0
-	tile.Links[hdr.MaxLinkCount-1].Next = nullLink
+	tile.LinksFreeList = nullLink
+	if hdr.MaxLinkCount > 0 {
+		tile.LinksFreeList = 0
+		tile.Links[hdr.MaxLinkCount-1].Next = nullLink
+	}
 
 	var i int32
 	for ; i < hdr.MaxLinkCount-1; i++ {
-- 
2.43.0


From 509e580b2dff35218f6175051793daaf17e30621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:57 +0000
Subject: [PATCH 20/32] fix: tile data shorter than its header announces
 panicked and lost a free slot

---
 detour/mesh.go    | 11 +++++++++++
 detour/structs.go | 20 ++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 8d112bd..5c25dca 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -208,6 +208,9 @@ func (m *NavMesh) Size() int32 {
 //	see CreateNavMeshData
 func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 	var header MeshHeader
+	if len(data) < header.size() {
+		return Failure | InvalidParam
+	}
 	header.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -318,6 +321,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 // see CreateNavMeshData, removeTileBvTree
 func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	var hdr MeshHeader
+	if len(data) < hdr.size() {
+		return Failure | InvalidParam, 0
+	}
 	hdr.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -328,6 +334,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | WrongVersion, 0
 	}
 
+	// Make sure the data holds everything the header announces.
+	if !hdr.fits(len(data)) {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
 		return Failure, 0
diff --git a/detour/structs.go b/detour/structs.go
index a5bfd7d..43000b4 100644
--- a/detour/structs.go
+++ b/detour/structs.go
@@ -111,6 +111,26 @@ func (s *MeshHeader) size() int {
 	return 100
 }
 
+// fits reports whether n bytes can hold the header and the sections it
+// announces.
+func (s *MeshHeader) fits(n int) bool {
+	if s.PolyCount < 0 || s.VertCount < 0 || s.MaxLinkCount < 0 ||
+		s.DetailMeshCount < 0 || s.DetailVertCount < 0 || s.DetailTriCount < 0 ||
+		s.BvNodeCount < 0 || s.OffMeshConCount < 0 {
+		return false
+	}
+	size := int64(s.size()) +
+		12*int64(s.VertCount) +
+		32*int64(s.PolyCount) +
+		12*int64(s.MaxLinkCount) +
+		12*int64(s.DetailMeshCount) +
+		12*int64(s.DetailVertCount) +
+		4*int64(s.DetailTriCount) +
+		16*int64(s.BvNodeCount) +
+		36*int64(s.OffMeshConCount)
+	return size <= int64(n)
+}
+
 func (s *MeshHeader) serialize(dst []byte) {
 	if len(dst) < s.size() {
 		panic("undersized buffer for MeshHeader")
-- 
2.43.0


From 2b756f68e60fcb3a19f284149b2501221925a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 21/32] fix: decoding accepted tile data and tile records that
 end early

---
 detour/mesh.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 5c25dca..459029a 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -102,16 +102,12 @@ func Decode(r io.Reader) (*NavMesh, error) {
 			return nil, err
 		}
 
-		if tileHdr.TileRef == 0 || tileHdr.DataSize == 0 {
-			break
+		if tileHdr.TileRef == 0 || tileHdr.DataSize <= 0 {
+			return nil, fmt.Errorf("invalid header of tile %d", i)
 		}
 
 		data := make([]byte, tileHdr.DataSize)
-		if data == nil {
-			break
-		}
-		_, err = r.Read(data)
-		if err != nil {
+		if _, err = io.ReadFull(r, data); err != nil {
 			return nil, err
 		}
 		status, _ := mesh.AddTile(data, tileHdr.TileRef)
-- 
2.43.0


From 0d0b872f9ea5ace0347bb1f9ba140048519e45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:59 +0000
Subject: [PATCH 22/32] fix: saving a mesh leaked the file and ignored the
 error of closing it

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 459029a..dd2d4ce 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -125,7 +125,11 @@ func (m *NavMesh) SaveToFile(fn string) error {
 		return err
 	}
 
-	return m.ToWriter(f)
+	err = m.ToWriter(f)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ToWriter writes binary navigation mesh to io.Writer.
-- 
2.43.0


From fb8777b5999538edd8655a2763b35d62e4597e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:08 +0000
Subject: [PATCH 23/32] fix: box queries took the unused last tree node for a
 leaf of polygon 0

---
 detour/mesh.go  | 7 ++++++-
 detour/query.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index dd2d4ce..9d06065 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -932,8 +932,13 @@ func (m *NavMesh) queryPolygonsInTile(
 			qfac            float32
 			bmin, bmax      [3]uint16
 		)
+		// The node array has one more element than the tree: stop where the
+		// subtree of the root ends.
 		nodeIdx = 0
-		endIdx = tile.Header.BvNodeCount
+		endIdx = 1
+		if root := &tile.BvTree[0]; root.I < 0 {
+			endIdx = -root.I
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
diff --git a/detour/query.go b/detour/query.go
index 87a2f98..1a79aa1 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1246,8 +1246,13 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			qfac            float32
 		)
 
+		// The node array has one more element than the tree: stop where the
+		// subtree of the root ends.
 		nodeIdx = 0
-		endIdx = tile.Header.BvNodeCount
+		endIdx = 1
+		if root := &tile.BvTree[0]; root.I < 0 {
+			endIdx = -root.I
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
-- 
2.43.0


From 0f80af27c8783e9bf343774399217dc7a2a1b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:19 +0000
Subject: [PATCH 24/32] fix: building a bounding-volume tree without detail
 meshes panicked

---
 detour/navmeshcreate.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 6f049b9..c143319 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -289,7 +289,6 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
-			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[int(p[0])*3+0]
 			it.BMin[1] = params.Verts[int(p[0])*3+1]
@@ -328,8 +327,8 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				}
 			}
 			// Remap y
-			it.BMin[1] = uint16(math32.Floor(float32(it.BMin[1]) * params.Ch / params.Cs))
-			it.BMax[1] = uint16(math32.Ceil(float32(it.BMax[1]) * params.Ch / params.Cs))
+			it.BMin[1] = uint16(int32Clamp(int32(math32.Floor(float32(it.BMin[1])*params.Ch/params.Cs)), 0, 0xffff))
+			it.BMax[1] = uint16(int32Clamp(int32(math32.Ceil(float32(it.BMax[1])*params.Ch/params.Cs)), 0, 0xffff))
 		}
 	}
 
-- 
2.43.0


From 15757472fe6cc3d9effb5c6ab715c8bba3d70324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 25/32] fix: queries created with fewer than 4 search nodes
 panicked

---
 detour/query.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 1a79aa1..f002f77 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -109,7 +109,7 @@ func newQueryData() queryData {
 // functions are used.
 // This function can be used multiple times.
 func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
-	if maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
+	if maxNodes <= 0 || maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
 		return Failure | InvalidParam, nil
 	}
 
@@ -120,7 +120,11 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 		if q.nodePool != nil {
 			q.nodePool = nil
 		}
-		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32(maxNodes/4))))
+		hashSize := int32(math32.NextPow2(uint32(maxNodes / 4)))
+		if hashSize == 0 {
+			hashSize = 1
+		}
+		q.nodePool = newNodePool(maxNodes, hashSize)
 		if q.nodePool == nil {
 			return Failure | OutOfMemory, nil
 		}
-- 
2.43.0


From db724f44284464aaedd04b163f8e3ccea5fb9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 26/32] fix: ray casts kept results of an earlier cast and
 panicked on missing arguments

---
 detour/query.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index f002f77..c2bd438 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1451,6 +1451,18 @@ func (q *NavMeshQuery) Raycast(
 	prevRef PolyRef) (st Status) {
 
 	// Validate input
+	if hit == nil {
+		st = Failure | InvalidParam
+		return
+	}
+	hit.T = 0
+	hit.PathCount = 0
+	hit.PathCost = 0
+
+	if len(startPos) < 3 || len(endPos) < 3 || filter == nil {
+		st = Failure | InvalidParam
+		return
+	}
 	if startRef == 0 || !q.nav.IsValidPolyRef(startRef) {
 		st = Failure | InvalidParam
 		return
-- 
2.43.0


From 3db9894515cfeee0b44a3afe47d5bdc0066f0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 27/32] fix: ray casts read the wrong vertices of tiles with
 more than 21845

---
 detour/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index c2bd438..20f6ff2 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1591,8 +1591,8 @@ func (q *NavMeshQuery) Raycast(
 			}
 
 			// Check for partial edge links.
-			v0 := poly.Verts[link.Edge]
-			v1 := poly.Verts[(link.Edge+1)%poly.VertCount]
+			v0 := int(poly.Verts[link.Edge])
+			v1 := int(poly.Verts[(link.Edge+1)%poly.VertCount])
 			left := tile.Verts[v0*3 : 3+v0*3]
 			right := tile.Verts[v1*3 : 3+v1*3]
 
-- 
2.43.0


From ee2789dcfdb06d7e739d2a0e3506b0169a6f9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:27 +0000
Subject: [PATCH 28/32] fix: straight path and sliced path queries panicked on
 missing points or filter

---
 detour/query.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 20f6ff2..5e0e0c5 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -428,7 +428,7 @@ func (q *NavMeshQuery) FindStraightPath(
 	if len(straightPath) == 0 {
 		return 0, Failure | InvalidParam
 	}
-	if len(path) == 0 {
+	if len(path) == 0 || len(startPos) < 3 || len(endPos) < 3 {
 		return 0, Failure | InvalidParam
 	}
 
@@ -1786,7 +1786,8 @@ func (q *NavMeshQuery) InitSlicedFindPath(startRef, endRef PolyRef,
 	}
 
 	// Validate input
-	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) {
+	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) ||
+		len(startPos) < 3 || len(endPos) < 3 || filter == nil {
 		return Failure | InvalidParam
 	}
 
-- 
2.43.0


From cb0084de035a4eefc81288d701616df271e0e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:28 +0000
Subject: [PATCH 29/32] fix: sliced path results that exactly filled the buffer
 were marked as truncated

---
 detour/query.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 5e0e0c5..ae09951 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2066,6 +2066,13 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 //
 // TODO: should remove maxPath as it should be the length of the path slice
 func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (pathCount int, st Status) {
+	if len(path) < maxPath {
+		maxPath = len(path)
+	}
+	if maxPath < 1 {
+		return 0, Failure | InvalidParam
+	}
+
 	if StatusFailed(q.query.status) {
 		// Reset query.
 		q.query = queryData{}
@@ -2125,7 +2132,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 			} else {
 				path[n] = node.ID
 				n++
-				if n >= maxPath {
+				if n >= maxPath && next != nil {
 					status = BufferTooSmall
 				}
 			}
@@ -2170,6 +2177,13 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 		return 0, Failure
 	}
 
+	if len(path) < maxPath {
+		maxPath = len(path)
+	}
+	if maxPath < 1 {
+		return 0, Failure | InvalidParam
+	}
+
 	if StatusFailed(q.query.status) {
 		// Reset query.
 		q.query = queryData{}
@@ -2240,7 +2254,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 			} else {
 				path[n] = node[0].ID
 				n++
-				if n >= maxPath {
+				if n >= maxPath && next != nil {
 					status = BufferTooSmall
 				}
 			}
-- 
2.43.0


From e906b5398a2980c0ff2bacdee1dde1f9ee439f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:47 +0000
Subject: [PATCH 30/32] fix: tiles with more polygons or off-mesh connections
 than their indices can hold were created

---
 detour/navmeshcreate.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index c143319..05a6f4c 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -550,12 +550,16 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	if params.VertCount >= 0xffff {
 		return nil, fmt.Errorf("wrong value for params.VertCount")
 	}
-	if params.VertCount == 0 || params.Verts == nil {
+	if params.VertCount <= 0 || params.Verts == nil {
 		return nil, fmt.Errorf("wrong value for params.VertCount or params.Verts")
 	}
-	if params.PolyCount == 0 || params.Polys == nil {
+	if params.PolyCount <= 0 || params.Polys == nil {
 		return nil, fmt.Errorf("wrong value for params.PolyCount or params.Polys")
 	}
+	// Neighbour polygons are stored with 15 bits, index 0 means none.
+	if params.PolyCount >= int32(extLink) {
+		return nil, fmt.Errorf("wrong value for params.PolyCount")
+	}
 
 	nvp := params.Nvp
 
@@ -626,6 +630,9 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// Off-mesh connectionss are stored as polygons, adjust values.
 	totPolyCount := int(params.PolyCount + storedOffMeshConCount)
 	totVertCount := int(params.VertCount + storedOffMeshConCount*2)
+	if totVertCount >= 0xffff || totPolyCount > 0xffff {
+		return nil, fmt.Errorf("too many off-mesh connections")
+	}
 
 	// Find portal edges which are at tile borders.
 	var (
-- 
2.43.0


From 05fafd0a90606cc8cfcc665c236d49520e5bd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:31 +0000
Subject: [PATCH 31/32] fix: tiles with more polygons than the mesh's
 references can hold were added

---
 detour/mesh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 9d06065..483b6e4 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -339,6 +339,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | InvalidParam, 0
 	}
 
+	// Make sure the references of the mesh can hold every polygon index.
+	if int64(hdr.PolyCount) > int64(1)<<m.polyBits {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
 		return Failure, 0
-- 
2.43.0


From 238407da6745eb6b5b54f1df711a3e389480acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:47 +0000
Subject: [PATCH 32/32] fix: sliced paths with shortcuts panicked when the
 buffer was full after a shortcut

---
 detour/query.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index ae09951..7ba8ea0 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2126,8 +2126,11 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
+				} else if n >= maxPath {
+					// no room for the next polygon
+					status |= BufferTooSmall
 				}
 			} else {
 				path[n] = node.ID
@@ -2248,8 +2251,11 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				m, _, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
+				} else if n >= maxPath {
+					// no room for the next polygon
+					status |= BufferTooSmall
 				}
 			} else {
 				path[n] = node[0].ID
-- 
2.43.0

