//go:build verif_contracts

package contracts

// C13: straight path output. C31: portals between linked polygons.

//@ package detour

// ---- well-formed tiles (C12, C13, C31) ----
//@ pred linkTable(t *MeshTile) = t != nil && len(t.Links) < 4294967295 && forall l int :: {t.Links[l].Next} 0 <= l && l < len(t.Links) ==> t.Links[l].Next == 4294967295 || t.Links[l].Next < len(t.Links)
//@ pred polyShape(t *MeshTile, p *Poly) = p != nil && 1 <= p.VertCount && p.VertCount <= 6 && (p.FirstLink == 4294967295 || p.FirstLink < len(t.Links)) && forall v int :: {p.Verts[v]} 0 <= v && v < 6 ==> 3*int(p.Verts[v])+3 <= len(t.Verts)
//@ pred tileShape(t *MeshTile) = linkTable(t) && 0 <= t.Header.PolyCount && t.Header.PolyCount <= len(t.Polys) && forall j int :: {t.Polys[j]} 0 <= j && j < t.Header.PolyCount ==> polyShape(t, &t.Polys[j])

//@ fn samePlace(pos d3.Vec3, sp []d3.Vec3, n int) bool = n > 0 && pos.Approx(sp[n-1])
//@ pred pathRows(sp []d3.Vec3) = len(sp) < 2147483647 && forall k int :: {sp[k]} 0 <= k && k < len(sp) ==> len(sp[k]) == 3
//@ pred rowsApart(sp []d3.Vec3, pos d3.Vec3) = (forall k int :: {sp[k]} 0 <= k && k < len(sp) ==> disjoint(sp[k], pos)) && (forall a int, b int :: {sp[a], sp[b]} 0 <= a && a < b && b < len(sp) ==> disjoint(sp[a], sp[b]))
//@ pred outArrays(sp []d3.Vec3, fl []uint8, rf []PolyRef) = (len(fl) == 0 || len(fl) >= len(sp)) && (len(rf) == 0 || len(rf) >= len(sp))

//@ func detour.(*NavMeshQuery).appendVertex
//@ property C13
//@ requires straightPathCount != nil && 0 <= *straightPathCount && *straightPathCount < len(straightPath) && len(pos) == 3
//@ requires pathRows(straightPath) && outArrays(straightPath, straightPathFlags, straightPathRefs)
//@ requires rowsApart(straightPath, pos)
//@ let n = *straightPathCount
//@ let dup = samePlace(pos, straightPath, *straightPathCount)
//@ ensures dup ==> *straightPathCount == n && result == InProgress
//@ ensures !dup ==> *straightPathCount == n+1 && result == (n+1 >= len(straightPath) ? Success|BufferTooSmall : (flags == StraightPathEnd ? Success : InProgress))
//@ ensures len(straightPathFlags) > 0 ==> straightPathFlags[dup ? n-1 : n] == flags
//@ ensures len(straightPathRefs) > 0 ==> straightPathRefs[dup ? n-1 : n] == ref
//@ ensures !dup ==> straightPath[n][0] == pos[0] && straightPath[n][1] == pos[1] && straightPath[n][2] == pos[2]
//@ ensures forall k int :: {straightPath[k]} 0 <= k && k < n ==> straightPath[k][0] == old(straightPath[k][0]) && straightPath[k][1] == old(straightPath[k][1]) && straightPath[k][2] == old(straightPath[k][2])
//@ ensures forall k int :: {straightPathFlags[k]} 0 <= k && k < len(straightPathFlags) && k != (dup ? n-1 : n) ==> straightPathFlags[k] == old(straightPathFlags[k])
//@ ensures forall k int :: {straightPathRefs[k]} 0 <= k && k < len(straightPathRefs) && k != (dup ? n-1 : n) ==> straightPathRefs[k] == old(straightPathRefs[k])
//@ modifies *straightPathCount, straightPathFlags[*], straightPathRefs[*], straightPath[*straightPathCount][*]

// ---- links and portals ----
// Ghost view: pid numbers the polygons, own[&t.Links[l]] is the number of the
// polygon whose list link l is in (-1: none), rk its place in that list.
//@ pred inList(t *MeshTile, p *Poly, l int, own rmap int, pid rmap int) = 0 <= l && l < len(t.Links) && own[&t.Links[l]] == pid[p]
//@ pred listHead(t *MeshTile, p *Poly, own rmap int, pid rmap int, rk rmap int) = (p.FirstLink == 4294967295 || (p.FirstLink < len(t.Links) && own[&t.Links[p.FirstLink]] == pid[p])) && forall l int :: {own[&t.Links[l]]} inList(t, p, l, own, pid) ==> p.FirstLink != 4294967295 && rk[&t.Links[l]] >= rk[&t.Links[p.FirstLink]] && rk[&t.Links[l]] < len(t.Links)
//@ pred listNext(t *MeshTile, p *Poly, own rmap int, pid rmap int, rk rmap int) = forall l int :: {t.Links[l].Next} inList(t, p, l, own, pid) ==> t.Links[l].Next == 4294967295 || (t.Links[l].Next < len(t.Links) && own[&t.Links[t.Links[l].Next]] == pid[p] && rk[&t.Links[t.Links[l].Next]] == rk[&t.Links[l]] + 1)
//@ pred listGaps(t *MeshTile, p *Poly, own rmap int, pid rmap int, rk rmap int) = forall l int, k int :: {own[&t.Links[l]], own[&t.Links[k]]} inList(t, p, l, own, pid) && inList(t, p, k, own, pid) && rk[&t.Links[k]] >= rk[&t.Links[l]] ==> l == k || (rk[&t.Links[k]] > rk[&t.Links[l]] && t.Links[l].Next != 4294967295)
//@ pred listOK(t *MeshTile, p *Poly, own rmap int, pid rmap int, rk rmap int) = len(t.Links) < 4294967295 && listHead(t, p, own, pid, rk) && listNext(t, p, own, pid, rk) && listGaps(t, p, own, pid, rk)
//@ pred linksTo(t *MeshTile, p *Poly, l int, ref PolyRef, own rmap int, pid rmap int) = inList(t, p, l, own, pid) && t.Links[l].Ref == ref
//@ pred linked(t *MeshTile, p *Poly, ref PolyRef, own rmap int, pid rmap int) = exists l int :: {own[&t.Links[l]]} linksTo(t, p, l, ref, own, pid)
//@ fn corner(t *MeshTile, p *Poly, e int, k int) float32 = t.Verts[3*int(p.Verts[e])+k]
//@ fn blend(a float32, b float32, s float32) float32 = a + (b-a)*s
//@ pred vecAt(v d3.Vec3, t *MeshTile, p *Poly, e int) = v[0] == corner(t, p, e, 0) && v[1] == corner(t, p, e, 1) && v[2] == corner(t, p, e, 2)
//@ pred vecBetween(v d3.Vec3, t *MeshTile, p *Poly, a int, b int, s float32) = v[0] == blend(corner(t, p, a, 0), corner(t, p, b, 0), s) && v[1] == blend(corner(t, p, a, 1), corner(t, p, b, 1), s) && v[2] == blend(corner(t, p, a, 2), corner(t, p, b, 2), s)
//@ pred edgePortal(left d3.Vec3, right d3.Vec3, t *MeshTile, p *Poly, k *Link) = k.Side == 255 || (k.BMin == 0 && k.BMax == 255) ? vecAt(left, t, p, k.Edge) && vecAt(right, t, p, (k.Edge+1)%p.VertCount) : vecBetween(left, t, p, k.Edge, (k.Edge+1)%p.VertCount, float32(k.BMin)*float32(1.0/255.0)) && vecBetween(right, t, p, k.Edge, (k.Edge+1)%p.VertCount, float32(k.BMax)*float32(1.0/255.0))
//@ pred isOffMesh(p *Poly) = p.Type() == 1

//@ func detour.(*NavMeshQuery).portalPoints8
//@ property C31
//@ gparam own rmap int
//@ gparam pid rmap int
//@ gparam rk rmap int
//@ requires linkTable(fromTile) && linkTable(toTile) && polyShape(fromTile, fromPoly) && polyShape(toTile, toPoly)
//@ requires listOK(fromTile, fromPoly, own, pid, rk) && listOK(toTile, toPoly, own, pid, rk)
//@ requires forall l int :: {own[&fromTile.Links[l]]} linksTo(fromTile, fromPoly, l, to, own, pid) ==> fromTile.Links[l].Edge < 6 || (fromTile.Links[l].Edge == 255 && isOffMesh(toPoly) && !isOffMesh(fromPoly))
//@ requires forall l int :: {own[&toTile.Links[l]]} linksTo(toTile, toPoly, l, from, own, pid) ==> toTile.Links[l].Edge < 6 || (toTile.Links[l].Edge == 255 && isOffMesh(fromPoly))
//@ requires len(left) == 3 && len(right) == 3 && disjoint(left, right) && disjoint(left, fromTile.Verts) && disjoint(left, toTile.Verts) && disjoint(right, fromTile.Verts) && disjoint(right, toTile.Verts)
//@ ensures result == Success || result == Failure|InvalidParam
//@ ensures result == Success <==> linked(fromTile, fromPoly, to, own, pid) && (isOffMesh(fromPoly) || !isOffMesh(toPoly) || linked(toTile, toPoly, from, own, pid))
//@ ensures result == Success && isOffMesh(fromPoly) ==> exists l int :: {own[&fromTile.Links[l]]} linksTo(fromTile, fromPoly, l, to, own, pid) && vecAt(left, fromTile, fromPoly, fromTile.Links[l].Edge) && vecAt(right, fromTile, fromPoly, fromTile.Links[l].Edge)
//@ ensures result == Success && !isOffMesh(fromPoly) && isOffMesh(toPoly) ==> exists l int :: {own[&toTile.Links[l]]} linksTo(toTile, toPoly, l, from, own, pid) && vecAt(left, toTile, toPoly, toTile.Links[l].Edge) && vecAt(right, toTile, toPoly, toTile.Links[l].Edge)
//@ ensures result == Success && !isOffMesh(fromPoly) && !isOffMesh(toPoly) ==> exists l int :: {own[&fromTile.Links[l]]} linksTo(fromTile, fromPoly, l, to, own, pid) && edgePortal(left, right, fromTile, fromPoly, &fromTile.Links[l])
//@ ensures result != Success ==> left[0] == old(left[0]) && left[1] == old(left[1]) && left[2] == old(left[2]) && right[0] == old(right[0]) && right[1] == old(right[1]) && right[2] == old(right[2])
//@ modifies left[*], right[*]
//@ loop 1
//@ invariant i == 4294967295 || inList(fromTile, fromPoly, i, own, pid)
//@ invariant forall k int :: {own[&fromTile.Links[k]]} inList(fromTile, fromPoly, k, own, pid) && (i == 4294967295 || rk[&fromTile.Links[k]] < rk[&fromTile.Links[i]]) ==> fromTile.Links[k].Ref != to
//@ decreases i == 4294967295 ? 0 : len(fromTile.Links) - rk[&fromTile.Links[i]]
//@ loop 2
//@ invariant i == 4294967295 || inList(fromTile, fromPoly, i, own, pid)
//@ invariant forall k int :: {own[&fromTile.Links[k]]} inList(fromTile, fromPoly, k, own, pid) && (i == 4294967295 || rk[&fromTile.Links[k]] < rk[&fromTile.Links[i]]) ==> fromTile.Links[k].Ref != to
//@ decreases i == 4294967295 ? 0 : len(fromTile.Links) - rk[&fromTile.Links[i]]
//@ loop 3
//@ invariant i == 4294967295 || inList(toTile, toPoly, i, own, pid)
//@ invariant forall k int :: {own[&toTile.Links[k]]} inList(toTile, toPoly, k, own, pid) && (i == 4294967295 || rk[&toTile.Links[k]] < rk[&toTile.Links[i]]) ==> toTile.Links[k].Ref != from
//@ decreases i == 4294967295 ? 0 : len(toTile.Links) - rk[&toTile.Links[i]]

//@ fn polyAt(m *NavMesh, i int, j int) *Poly = &m.Tiles[i].Polys[j]
//@ fn livePoly(m *NavMesh, r PolyRef) *Poly = &m.Tiles[int(refTile(m, r))].Polys[int(refPoly(m, r))]
//@ pred loaded(m *NavMesh, i int) = 0 <= i && i < len(m.Tiles) && m.Tiles[i].Header != nil
//@ pred navTables(m *NavMesh) = forall i int :: {&m.Tiles[i]} loaded(m, i) ==> linkTable(&m.Tiles[i])
//@ pred navPolys(m *NavMesh) = forall i int, j int :: {&m.Tiles[i].Polys[j]} loaded(m, i) && 0 <= j && j < m.Tiles[i].Header.PolyCount ==> polyShape(&m.Tiles[i], &m.Tiles[i].Polys[j])
//@ pred navLists(m *NavMesh, own rmap int, pid rmap int, rk rmap int) = forall i int, j int :: {&m.Tiles[i].Polys[j]} loaded(m, i) && 0 <= j && j < m.Tiles[i].Header.PolyCount ==> listOK(&m.Tiles[i], &m.Tiles[i].Polys[j], own, pid, rk)
//@ pred edgeOK(m *NavMesh, i int, j int, l int) = liveRef(m, m.Tiles[i].Links[l].Ref) ==> m.Tiles[i].Links[l].Edge < 6 || (m.Tiles[i].Links[l].Edge == 255 && !isOffMesh(&m.Tiles[i].Polys[j]) && isOffMesh(livePoly(m, m.Tiles[i].Links[l].Ref)))
//@ pred navEdges(m *NavMesh, own rmap int, pid rmap int) = forall i int, j int, l int :: {&m.Tiles[i].Polys[j], own[&m.Tiles[i].Links[l]]} loaded(m, i) && 0 <= j && j < m.Tiles[i].Header.PolyCount && inList(&m.Tiles[i], &m.Tiles[i].Polys[j], l, own, pid) ==> edgeOK(m, i, j, l)
//@ pred navOK(m *NavMesh, own rmap int, pid rmap int, rk rmap int) = m != nil && splitOK(m) && meshShape(m) && tilesLoaded(m) && navTables(m) && navPolys(m) && navLists(m, own, pid, rk) && navEdges(m, own, pid)
//@ pred navApart(m *NavMesh, v d3.Vec3) = forall i int :: {&m.Tiles[i]} loaded(m, i) ==> disjoint(v, m.Tiles[i].Verts)

//@ fn tileOfRef(m *NavMesh, r PolyRef) *MeshTile = &m.Tiles[int(refTile(m, r))]
//@ pred crossable(m *NavMesh, from PolyRef, to PolyRef, own rmap int, pid rmap int) = liveRef(m, from) && liveRef(m, to) && linked(tileOfRef(m, from), livePoly(m, from), to, own, pid) && (isOffMesh(livePoly(m, from)) || !isOffMesh(livePoly(m, to)) || linked(tileOfRef(m, to), livePoly(m, to), from, own, pid))

//@ func detour.(*NavMeshQuery).portalPoints6
//@ property C31
//@ gparam own rmap int
//@ gparam pid rmap int
//@ gparam rk rmap int
//@ requires q != nil && navOK(q.nav, own, pid, rk) && fromType != nil && toType != nil && fromType != toType
//@ requires len(left) == 3 && len(right) == 3 && disjoint(left, right) && navApart(q.nav, left) && navApart(q.nav, right)
//@ ensures result == Success || StatusFailed(result)
//@ ensures result == Success ==> liveRef(q.nav, from) && liveRef(q.nav, to)
//@ ensures result == Success ==> linked(tileOfRef(q.nav, from), livePoly(q.nav, from), to, own, pid)
//@ ensures result == Success ==> isOffMesh(livePoly(q.nav, from)) || !isOffMesh(livePoly(q.nav, to)) || linked(tileOfRef(q.nav, to), livePoly(q.nav, to), from, own, pid)
//@ ensures crossable(q.nav, from, to, own, pid) ==> result == Success
//@ ensures result == Success ==> *fromType == livePoly(q.nav, from).Type() && *toType == livePoly(q.nav, to).Type()
//@ modifies left[*], right[*], *fromType, *toType

//@ func detour.(*NavMeshQuery).edgeMidPoint
//@ property C31
//@ gparam own rmap int
//@ gparam pid rmap int
//@ gparam rk rmap int
//@ requires linkTable(fromTile) && linkTable(toTile) && polyShape(fromTile, fromPoly) && polyShape(toTile, toPoly)
//@ requires listOK(fromTile, fromPoly, own, pid, rk) && listOK(toTile, toPoly, own, pid, rk)
//@ requires forall l int :: {own[&fromTile.Links[l]]} linksTo(fromTile, fromPoly, l, to, own, pid) ==> fromTile.Links[l].Edge < 6 || (fromTile.Links[l].Edge == 255 && isOffMesh(toPoly) && !isOffMesh(fromPoly))
//@ requires forall l int :: {own[&toTile.Links[l]]} linksTo(toTile, toPoly, l, from, own, pid) ==> toTile.Links[l].Edge < 6 || (toTile.Links[l].Edge == 255 && isOffMesh(fromPoly))
//@ requires len(mid) == 3
//@ ensures result == Success || result == Failure|InvalidParam
//@ ensures result == Success <==> linked(fromTile, fromPoly, to, own, pid) && (isOffMesh(fromPoly) || !isOffMesh(toPoly) || linked(toTile, toPoly, from, own, pid))
//@ modifies mid[*]

// ---- corridor walk ----
//@ func detour.distancePtPolyEdgesSqr
//@ property C13
//@ requires len(pt) >= 3 && 0 <= nverts && nverts < 100000000 && len(verts) >= 3*nverts && len(ed) >= nverts && len(et) >= nverts
//@ requires disjoint(ed, et) && disjoint(ed, verts) && disjoint(et, verts) && disjoint(ed, pt) && disjoint(et, pt)
//@ modifies ed[*], et[*]
//@ loop 1
//@ invariant 0 <= i && i <= nverts && (i < nverts ==> 0 <= j && j < nverts)
//@ decreases nverts - i

//@ func detour.(*NavMeshQuery).ClosestPointOnPolyBoundary
//@ property C13
//@ requires q != nil && q.nav != nil && splitOK(q.nav) && meshShape(q.nav) && tilesLoaded(q.nav) && navPolys(q.nav)
//@ requires len(pos) == 3 && len(closest) == 3 && disjoint(pos, closest)
//@ ensures result == Success || result == Failure|InvalidParam
//@ ensures result == Success <==> liveRef(q.nav, ref)
//@ ensures result != Success ==> closest[0] == old(closest[0]) && closest[1] == old(closest[1]) && closest[2] == old(closest[2])
//@ modifies closest[*]
//@ loop 1
//@ invariant 0 <= i && i <= poly.VertCount && nv == i
//@ decreases poly.VertCount - i
//@ loop 2
//@ invariant 1 <= i && i <= nv && 0 <= imin && imin < nv
//@ decreases nv - i

//@ func detour.(*NavMeshQuery).appendPortals
//@ property C13
//@ paths
//@ gparam own rmap int
//@ gparam pid rmap int
//@ gparam rk rmap int
//@ requires q != nil && navOK(q.nav, own, pid, rk) && straightPathCount != nil && 1 <= *straightPathCount && *straightPathCount < len(straightPath)
//@ requires pathRows(straightPath) && outArrays(straightPath, straightPathFlags, straightPathRefs) && rowsApart(straightPath, endPos)
//@ requires forall k int :: {straightPath[k]} 0 <= k && k < len(straightPath) ==> navApart(q.nav, straightPath[k])
//@ requires len(endPos) == 3 && 0 <= startIdx && endIdx < len(path)
//@ ensures old(*straightPathCount) <= *straightPathCount && *straightPathCount <= len(straightPath)
//@ ensures result == InProgress <==> *straightPathCount < len(straightPath) && !StatusFailed(result)
//@ ensures result == InProgress || result == Failure|InvalidParam || result == Success|BufferTooSmall
//@ ensures forall k int :: {straightPath[k]} 0 <= k && k < old(*straightPathCount) ==> straightPath[k][0] == old(straightPath[k][0]) && straightPath[k][1] == old(straightPath[k][1]) && straightPath[k][2] == old(straightPath[k][2])
//@ modifies *straightPathCount, straightPathFlags[*], straightPathRefs[*], heapof(float32)
//@ loop 1
//@ invariant startIdx <= i && (i <= endIdx || i == startIdx)
//@ invariant old(*straightPathCount) <= *straightPathCount && *straightPathCount < len(straightPath)
//@ invariant forall k int :: {straightPath[k]} 0 <= k && k < old(*straightPathCount) ==> straightPath[k][0] == old(straightPath[k][0]) && straightPath[k][1] == old(straightPath[k][1]) && straightPath[k][2] == old(straightPath[k][2])
//@ decreases endIdx - i

//@ func detour.(*NavMeshQuery).FindStraightPath
//@ property C13
//@ gparam own rmap int
//@ gparam pid rmap int
//@ gparam rk rmap int
//@ requires q != nil && navOK(q.nav, own, pid, rk)
//@ requires pathRows(straightPath) && outArrays(straightPath, straightPathFlags, straightPathRefs) && len(path) < 2147483647
//@ requires rowsApart(straightPath, startPos) && rowsApart(straightPath, endPos)
//@ requires forall k int :: {straightPath[k]} 0 <= k && k < len(straightPath) ==> navApart(q.nav, straightPath[k])
//@ requires len(startPos) == 3 && len(endPos) == 3
//@ ensures 0 <= straightPathCount && straightPathCount <= len(straightPath)
//@ ensures len(straightPath) == 0 || len(path) == 0 ==> st == Failure|InvalidParam && straightPathCount == 0
//@ ensures len(path) > 0 && (!old(liveRef(q.nav, path[0])) || !old(liveRef(q.nav, path[len(path)-1]))) ==> st == Failure|InvalidParam && straightPathCount == 0
//@ ensures st == Failure|InvalidParam || st == Success || st == Success|BufferTooSmall || st == Success|PartialResult || st == Success|PartialResult|BufferTooSmall
//@ ensures st == Success || st == Success|PartialResult ==> 0 < straightPathCount && straightPathCount < len(straightPath)
//@ ensures st == Success|BufferTooSmall || st == Success|PartialResult|BufferTooSmall ==> straightPathCount == len(straightPath)
//@ modifies straightPathFlags[*], straightPathRefs[*], heapof(float32)
//@ noterm
//@ loop 1
//@ invariant 0 <= i && 1 <= count && count < len(straightPath)
//@ invariant 0 <= apexIndex && apexIndex < len(path) && 0 <= leftIndex && leftIndex < len(path) && 0 <= rightIndex && rightIndex < len(path)
