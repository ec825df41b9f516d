//go:build verif_contracts

package contracts

// C20: integer polygon predicates, for all coordinates of the 16-bit grid.

//@ package recast

//@ pred coord(v int) = 0 <= v && v <= 65535
//@ pred point(a []int32) = len(a) >= 3 && coord(a[0]) && coord(a[2])
//@ fn cross(a []int32, b []int32, c []int32) int = (int(b[0]) - int(a[0])) * (int(c[2]) - int(a[2])) - (int(c[0]) - int(a[0])) * (int(b[2]) - int(a[2]))
//@ fn crossI(ax int, az int, bx int, bz int, cx int, cz int) int = (bx - ax) * (cz - az) - (cx - ax) * (bz - az)
//@ pred oppositeI(x int, y int) = (x < 0 && y > 0) || (x > 0 && y < 0)
// c lies on the closed segment from a to b (the second range test is what is left when a and b share x)
//@ oppred onSegI(ax int, az int, bx int, bz int, cx int, cz int) = crossI(ax, az, bx, bz, cx, cz) == 0 && (ax != bx ? min(ax, bx) <= cx && cx <= max(ax, bx) : min(az, bz) <= cz && cz <= max(az, bz))
//@ oppred cutsI(ax int, az int, bx int, bz int, cx int, cz int, dx int, dz int) = oppositeI(crossI(ax, az, bx, bz, cx, cz), crossI(ax, az, bx, bz, dx, dz)) && oppositeI(crossI(cx, cz, dx, dz, ax, az), crossI(cx, cz, dx, dz, bx, bz))
//@ oppred meetsI(ax int, az int, bx int, bz int, cx int, cz int, dx int, dz int) = cutsI(ax, az, bx, bz, cx, cz, dx, dz) || onSegI(ax, az, bx, bz, cx, cz) || onSegI(ax, az, bx, bz, dx, dz) || onSegI(cx, cz, dx, dz, ax, az) || onSegI(cx, cz, dx, dz, bx, bz)
//@ pred onSegment(a []int32, b []int32, c []int32) = onSegI(a[0], a[2], b[0], b[2], c[0], c[2])
//@ pred properCut(a []int32, b []int32, c []int32, d []int32) = cutsI(a[0], a[2], b[0], b[2], c[0], c[2], d[0], d[2])
//@ pred meets(a []int32, b []int32, c []int32, d []int32) = meetsI(a[0], a[2], b[0], b[2], c[0], c[2], d[0], d[2])

// With two distinct end points the test is the exact one: both coordinates of c between those of a and b.
//@ lemma onSegExact(ax int, az int, bx int, bz int, cx int, cz int)
//@ property C20
//@ use onSegI
//@ requires ax != bx || az != bz
//@ ensures onSegI(ax, az, bx, bz, cx, cz) <==> crossI(ax, az, bx, bz, cx, cz) == 0 && min(ax, bx) <= cx && cx <= max(ax, bx) && min(az, bz) <= cz && cz <= max(az, bz)

//@ fn stepFwd(i int, n int) int = i + 1 < n ? i + 1 : 0
//@ fn stepBack(i int, n int) int = i > 0 ? i - 1 : n - 1

//@ func recast.prev
//@ property C20
//@ requires 0 <= i && i < n
//@ ensures result == stepBack(i, n) && 0 <= result && result < n
//@ modifies nothing

//@ func recast.next
//@ property C20
//@ requires 0 <= i && i < n
//@ ensures result == stepFwd(i, n) && 0 <= result && result < n
//@ modifies nothing

//@ lemma stepInverse(i int, n int)
//@ property C20
//@ requires 0 <= i && i < n
//@ ensures stepBack(stepFwd(i, n), n) == i && stepFwd(stepBack(i, n), n) == i

//@ func recast.area2
//@ property C20
//@ requires point(a) && point(b) && point(c)
//@ ensures result == cross(a, b, c)
//@ modifies nothing

//@ func recast.xorb
//@ property C20
//@ ensures result <==> (x && !y || !x && y)
//@ modifies nothing

//@ func recast.left
//@ property C20
//@ requires point(a) && point(b) && point(c)
//@ ensures result <==> cross(a, b, c) < 0
//@ modifies nothing

//@ func recast.leftOn
//@ property C20
//@ requires point(a) && point(b) && point(c)
//@ ensures result <==> cross(a, b, c) <= 0
//@ modifies nothing

//@ func recast.collinear
//@ property C20
//@ requires point(a) && point(b) && point(c)
//@ ensures result <==> cross(a, b, c) == 0
//@ modifies nothing

//@ func recast.uleft
//@ property C20
//@ requires len(a) >= 3 && len(b) >= 3 && len(c) >= 3
//@ ensures result <==> (int(b[0]) - int(a[0])) * (int(c[2]) - int(a[2])) - (int(c[0]) - int(a[0])) * (int(b[2]) - int(a[2])) < 0
//@ modifies nothing

//@ func recast.vequal
//@ property C20
//@ requires len(a) >= 3 && len(b) >= 3
//@ ensures result <==> a[0] == b[0] && a[2] == b[2]
//@ modifies nothing

//@ func recast.intersectProp
//@ property C20
//@ use cutsI
//@ requires point(a) && point(b) && point(c) && point(d)
//@ ensures result <==> properCut(a, b, c, d)
//@ modifies nothing

//@ func recast.between
//@ property C20
//@ use onSegI
//@ requires point(a) && point(b) && point(c)
//@ ensures result <==> onSegment(a, b, c)
//@ modifies nothing

//@ func recast.intersect
//@ property C20
//@ use meetsI
//@ requires point(a) && point(b) && point(c) && point(d)
//@ ensures result <==> meets(a, b, c, d)
//@ modifies nothing

// vertex k of a contour polygon (4 numbers a vertex); of a triangulation polygon (through its index list)
//@ pred contourShape(n int, verts []int32) = 1 <= n && n < 500000000 && len(verts) >= 4*n && forall k int :: {verts[k]} 0 <= k && k < 4*n ==> coord(verts[k])
//@ pred samePt(a []int32, b []int32) = a[0] == b[0] && a[2] == b[2]
//@ pred edgeHit(d0 []int32, d1 []int32, p0 []int32, p1 []int32) = !samePt(d0, p0) && !samePt(d1, p0) && !samePt(d0, p1) && !samePt(d1, p1) && meets(d0, d1, p0, p1)

//@ pred cone(pi []int32, pj []int32, pi1 []int32, pin1 []int32) = cross(pin1, pi, pi1) <= 0 ? (cross(pi, pj, pin1) < 0 && cross(pj, pi, pi1) < 0) : !(cross(pi, pj, pi1) <= 0 && cross(pj, pi, pin1) <= 0)
//@ pred coneLoose(pi []int32, pj []int32, pi1 []int32, pin1 []int32) = cross(pin1, pi, pi1) <= 0 ? (cross(pi, pj, pin1) <= 0 && cross(pj, pi, pi1) <= 0) : !(cross(pi, pj, pi1) <= 0 && cross(pj, pi, pin1) <= 0)

//@ func recast.intersectSegCountour
//@ property C20
//@ requires point(d0) && point(d1) && contourShape(n, verts)
//@ ensures result <==> (exists k int :: 0 <= k && k < n && i != k && i != stepFwd(k, n) && edgeHit(d0, d1, verts[k*4:], verts[stepFwd(k, n)*4:]))
//@ modifies nothing
//@ loop 1
//@ invariant 0 <= k && k <= n
//@ invariant forall q int :: {verts[q*4]} 0 <= q && q < k && i != q && i != stepFwd(q, n) ==> !edgeHit(d0, d1, verts[q*4:], verts[stepFwd(q, n)*4:])

//@ func recast.inCone4
//@ property C20
//@ requires contourShape(n, verts) && 0 <= i && i < n && point(pj)
//@ ensures result <==> cone(verts[i*4:], pj, verts[stepFwd(i, n)*4:], verts[stepBack(i, n)*4:])
//@ modifies nothing

//@ fn vix(indices []int64, k int) int = indices[k] & 0x0fffffff
//@ pred triShape(n int, verts []int32, indices []int64) = 1 <= n && n < 500000000 && len(indices) >= n && (forall k int :: {indices[k]} 0 <= k && k < n ==> 4 * vix(indices, k) + 3 <= len(verts)) && forall k int :: {verts[k]} 0 <= k && k < len(verts) ==> coord(verts[k])

//@ func recast.inCone5
//@ property C20
//@ requires triShape(n, verts, indices) && 0 <= i && i < n && 0 <= j && j < n
//@ ensures result <==> cone(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, stepFwd(i, n))*4:], verts[vix(indices, stepBack(i, n))*4:])
//@ modifies nothing

//@ func recast.inConeLoose
//@ property C20
//@ requires triShape(n, verts, indices) && 0 <= i && i < n && 0 <= j && j < n
//@ ensures result <==> coneLoose(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, stepFwd(i, n))*4:], verts[vix(indices, stepBack(i, n))*4:])
//@ modifies nothing

//@ pred freeEdge(i int, j int, n int, k int) = k != i && stepFwd(k, n) != i && k != j && stepFwd(k, n) != j
//@ pred looseHit(d0 []int32, d1 []int32, p0 []int32, p1 []int32) = !samePt(d0, p0) && !samePt(d1, p0) && !samePt(d0, p1) && !samePt(d1, p1) && properCut(d0, d1, p0, p1)

//@ func recast.diagonalie
//@ property C20
//@ requires triShape(n, verts, indices) && 0 <= i && i < n && 0 <= j && j < n
//@ ensures result <==> (forall k int :: {indices[k]} 0 <= k && k < n && freeEdge(i, j, n, k) ==> !edgeHit(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, k)*4:], verts[vix(indices, stepFwd(k, n))*4:]))
//@ modifies nothing
//@ loop 1
//@ invariant 0 <= k && k <= n
//@ invariant forall q int :: {indices[q]} 0 <= q && q < k && freeEdge(i, j, n, q) ==> !edgeHit(d0, d1, verts[vix(indices, q)*4:], verts[vix(indices, stepFwd(q, n))*4:])

//@ func recast.diagonalieLoose
//@ property C20
//@ requires triShape(n, verts, indices) && 0 <= i && i < n && 0 <= j && j < n
//@ ensures result <==> (forall k int :: {indices[k]} 0 <= k && k < n && freeEdge(i, j, n, k) ==> !looseHit(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, k)*4:], verts[vix(indices, stepFwd(k, n))*4:]))
//@ modifies nothing
//@ loop 1
//@ invariant 0 <= k && k <= n
//@ invariant forall q int :: {indices[q]} 0 <= q && q < k && freeEdge(i, j, n, q) ==> !looseHit(d0, d1, verts[vix(indices, q)*4:], verts[vix(indices, stepFwd(q, n))*4:])

//@ func recast.diagonal
//@ property C20
//@ requires triShape(n, verts, indices) && 0 <= i && i < n && 0 <= j && j < n
//@ ensures result <==> cone(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, stepFwd(i, n))*4:], verts[vix(indices, stepBack(i, n))*4:]) && forall k int :: {indices[k]} 0 <= k && k < n && freeEdge(i, j, n, k) ==> !edgeHit(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, k)*4:], verts[vix(indices, stepFwd(k, n))*4:])
//@ modifies nothing

//@ func recast.diagonalLoose
//@ property C20
//@ requires triShape(n, verts, indices) && 0 <= i && i < n && 0 <= j && j < n
//@ ensures result <==> coneLoose(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, stepFwd(i, n))*4:], verts[vix(indices, stepBack(i, n))*4:]) && forall k int :: {indices[k]} 0 <= k && k < n && freeEdge(i, j, n, k) ==> !looseHit(verts[vix(indices, i)*4:], verts[vix(indices, j)*4:], verts[vix(indices, k)*4:], verts[vix(indices, stepFwd(k, n))*4:])
//@ modifies nothing
