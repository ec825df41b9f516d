//go:build verif_contracts

package contracts

// C22: bounds, grid size, slope marking. Floating-point operations are kept
// exact but uninterpreted; comparisons are the IEEE order.

//@ package recast

//@ pred vecs(vs []float32, n int) = 0 <= n && n < 500000000 && len(vs) >= 3*n
//@ pred numbers(vs []float32, n int) = forall k int :: {vs[k]} 0 <= k && k < n ==> !isnan(vs[k])

//@ func recast.CalcBounds
//@ property C22
//@ paths
//@ requires 1 <= nv && vecs(verts, nv) && numbers(verts, 3*nv)
//@ requires len(bmin) >= 3 && len(bmax) >= 3 && disjoint(bmin, verts) && disjoint(bmax, verts) && disjoint(bmin, bmax)
//@ ensures forall k int :: {verts[3*k]} 0 <= k && k < nv ==> fle(bmin[0], verts[3*k]) && fle(verts[3*k], bmax[0])
//@ ensures forall k int :: {verts[3*k+1]} 0 <= k && k < nv ==> fle(bmin[1], verts[3*k+1]) && fle(verts[3*k+1], bmax[1])
//@ ensures forall k int :: {verts[3*k+2]} 0 <= k && k < nv ==> fle(bmin[2], verts[3*k+2]) && fle(verts[3*k+2], bmax[2])
//@ ensures exists k int :: {verts[3*k]} 0 <= k && k < nv && verts[3*k] == bmin[0]
//@ ensures exists k int :: {verts[3*k]} 0 <= k && k < nv && verts[3*k] == bmax[0]
//@ ensures exists k int :: {verts[3*k+1]} 0 <= k && k < nv && verts[3*k+1] == bmin[1]
//@ ensures exists k int :: {verts[3*k+1]} 0 <= k && k < nv && verts[3*k+1] == bmax[1]
//@ ensures exists k int :: {verts[3*k+2]} 0 <= k && k < nv && verts[3*k+2] == bmin[2]
//@ ensures exists k int :: {verts[3*k+2]} 0 <= k && k < nv && verts[3*k+2] == bmax[2]
//@ modifies bmin[0], bmin[1], bmin[2], bmax[0], bmax[1], bmax[2]
//@ loop 1
//@ invariant 1 <= i && i <= nv
//@ invariant forall k int :: {verts[3*k]} 0 <= k && k < i ==> fle(bmin[0], verts[3*k]) && fle(verts[3*k], bmax[0])
//@ invariant forall k int :: {verts[3*k+1]} 0 <= k && k < i ==> fle(bmin[1], verts[3*k+1]) && fle(verts[3*k+1], bmax[1])
//@ invariant forall k int :: {verts[3*k+2]} 0 <= k && k < i ==> fle(bmin[2], verts[3*k+2]) && fle(verts[3*k+2], bmax[2])
//@ invariant exists k int :: {verts[3*k]} 0 <= k && k < i && verts[3*k] == bmin[0]
//@ invariant exists k int :: {verts[3*k]} 0 <= k && k < i && verts[3*k] == bmax[0]
//@ invariant exists k int :: {verts[3*k+1]} 0 <= k && k < i && verts[3*k+1] == bmin[1]
//@ invariant exists k int :: {verts[3*k+1]} 0 <= k && k < i && verts[3*k+1] == bmax[1]
//@ invariant exists k int :: {verts[3*k+2]} 0 <= k && k < i && verts[3*k+2] == bmin[2]
//@ invariant exists k int :: {verts[3*k+2]} 0 <= k && k < i && verts[3*k+2] == bmax[2]

//@ func recast.CalcGridSize
//@ property C22
//@ requires len(bmin) >= 3 && len(bmax) >= 3
//@ ensures w == int32((bmax[0]-bmin[0])/cs + 0.5) && h == int32((bmax[2]-bmin[2])/cs + 0.5)
//@ modifies nothing

//@ fn crossX(a []float32, b []float32, c []float32) float32 = (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1])
//@ fn crossY(a []float32, b []float32, c []float32) float32 = (b[2]-a[2])*(c[0]-a[0]) - (b[0]-a[0])*(c[2]-a[2])
//@ fn crossZ(a []float32, b []float32, c []float32) float32 = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
//@ fn normLen(a []float32, b []float32, c []float32) float32 = 1.0 / math32.Sqrt(crossX(a,b,c)*crossX(a,b,c) + crossY(a,b,c)*crossY(a,b,c) + crossZ(a,b,c)*crossZ(a,b,c))
//@ fn slope(vs []float32, ts []int32, i int) float32 = crossY(vs[ts[3*i]*3:], vs[ts[3*i+1]*3:], vs[ts[3*i+2]*3:]) * normLen(vs[ts[3*i]*3:], vs[ts[3*i+1]*3:], vs[ts[3*i+2]*3:])
//@ pred triList(vs []float32, nv int, ts []int32, nt int) = vecs(vs, nv) && 0 <= nt && nt < 500000000 && len(ts) >= 3*nt && forall k int :: {ts[k]} 0 <= k && k < 3*nt ==> 0 <= ts[k] && ts[k] < nv

//@ func recast.calcTriNormal
//@ property C22
//@ requires len(v0) >= 3 && len(v1) >= 3 && len(v2) >= 3 && len(norm) >= 3
//@ ensures norm[1] == old(crossY(v0, v1, v2) * normLen(v0, v1, v2))
//@ ensures norm[0] == old(crossX(v0, v1, v2) * normLen(v0, v1, v2))
//@ ensures norm[2] == old(crossZ(v0, v1, v2) * normLen(v0, v1, v2))
//@ modifies norm[0], norm[1], norm[2]

//@ func recast.MarkWalkableTriangles
//@ property C22
//@ requires triList(verts, nv, tris, nt) && len(areas) >= nt && disjoint(areas, tris) && disjoint(areas, verts)
//@ let thr = math32.Cos(walkableSlopeAngle / 180.0 * math.Pi)
//@ ensures forall k int :: {areas[k]} 0 <= k && k < nt ==> areas[k] == (fle(slope(verts, tris, k), thr) || isnan(slope(verts, tris, k)) || isnan(thr) ? old(areas[k]) : WalkableArea)
//@ modifies areas[*]
//@ ensures forall k int :: {areas[k]} nt <= k && k < len(areas) ==> areas[k] == old(areas[k])
//@ loop 1
//@ invariant 0 <= i && i <= nt
//@ invariant forall k int :: {areas[k]} 0 <= k && k < i ==> areas[k] == (fle(slope(verts, tris, k), thr) || isnan(slope(verts, tris, k)) || isnan(thr) ? old(areas[k]) : WalkableArea)
//@ invariant forall k int :: {areas[k]} i <= k && k < len(areas) ==> areas[k] == old(areas[k])

//@ func recast.ClearUnwalkableTriangles
//@ property C22
//@ requires triList(verts, nv, tris, nt) && len(areas) >= nt && disjoint(areas, tris) && disjoint(areas, verts)
//@ let thr = math32.Cos(walkableSlopeAngle / 180.0 * math.Pi)
//@ ensures forall k int :: {areas[k]} 0 <= k && k < nt ==> areas[k] == (fle(slope(verts, tris, k), thr) ? nullArea : old(areas[k]))
//@ ensures forall k int :: {areas[k]} nt <= k && k < len(areas) ==> areas[k] == old(areas[k])
//@ modifies areas[*]
//@ loop 1
//@ invariant 0 <= i && i <= nt
//@ invariant forall k int :: {areas[k]} 0 <= k && k < i ==> areas[k] == (fle(slope(verts, tris, k), thr) ? nullArea : old(areas[k]))
//@ invariant forall k int :: {areas[k]} i <= k && k < len(areas) ==> areas[k] == old(areas[k])
