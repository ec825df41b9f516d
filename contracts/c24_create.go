//go:build verif_contracts

package contracts

// C24: creation of navigation data.

//@ package detour

// ---- end points of connections ----
// side beyond the tile: 0 x+, 2 z+, 4 x-, 6 z-, the corners in between, 255 inside
//@ fn sideOf(xp bool, zp bool, xm bool, zm bool) int = xp ? (zp ? (xm || zm ? 255 : 1) : zm ? (xm ? 255 : 7) : xm ? 255 : 0) : zp ? (zm ? 255 : xm ? 3 : 2) : xm ? (zm ? 5 : 4) : zm ? 6 : 255

//@ func detour.classifyOffMeshPoint
//@ property C24
//@ floats fp
//@ requires len(pt) >= 3 && len(bmin) >= 3 && len(bmax) >= 3
//@ ensures int(result) == sideOf(fle(bmax[0], pt[0]), fle(bmax[2], pt[2]), flt(pt[0], bmin[0]), flt(pt[2], bmin[2]))
//@ modifies nothing

//@ func detour.classifyOffMeshPoint#frame
//@ property C24
//@ maypanic
//@ modifies nothing

//@ func detour.subdivide#frame
//@ property C24
//@ maypanic
//@ noterm
//@ overflow wrap
//@ variant frame
//@ requires 0 <= imin && imin < imax && imax <= len(items) && len(items) <= 536870911 && root(nodes) != root(items) && root(curNode) != root(nodes) && root(curNode) != root(items)
//@ modifies items[*], nodes[*], *curNode

//@ func detour.calcExtends#frame
//@ property C24
//@ maypanic
//@ overflow wrap
//@ modifies bmin[*], bmax[*]

//@ func detour.createBVTree#frame
//@ property C24
//@ maypanic
//@ overflow wrap
//@ variant frame
//@ requires params != nil && 1 <= params.PolyCount && params.PolyCount < 65536
//@ modifies nodes[*]

// how an edge is stored: 0 for a border, neighbour + 1, or the side of a portal
//@ fn neiCode(v int) int = v < 32768 ? v + 1 : v % 16 == 0 ? 32772 : v % 16 == 1 ? 32770 : v % 16 == 2 ? 32768 : v % 16 == 3 ? 32774 : 0
//@ pred polyRow(p []Poly, k int, s []uint16, nvp int) = p[k].VertCount <= nvp && (p[k].VertCount < nvp ==> s[2*nvp*k + int(p[k].VertCount)] == 65535)
//@ pred polyEdge(p []Poly, k int, j int, s []uint16, nvp int) = j < p[k].VertCount ? p[k].Verts[j] == s[2*nvp*k + j] && s[2*nvp*k + j] != 65535 && int(p[k].Neis[j]) == neiCode(int(s[2*nvp*k + nvp + j])) : p[k].Verts[j] == 0 && p[k].Neis[j] == 0

//@ func detour.CreateNavMeshData
//@ property C24
//@ floats uf
//@ overflow wrap
//@ maypanic
//@ variant frame
//@ requires params != nil && 0 <= params.OffMeshConCount && params.OffMeshConCount <= 65535 && 0 <= params.DetailTriCount && params.DetailTriCount <= 1000000 && 0 <= params.Nvp && allocated(params.PolyFlags) && allocated(params.Polys)
//@ requires params.DetailMeshes != nil ==> (forall i int :: {params.DetailMeshes[4*i+1]} 0 <= i && i < params.PolyCount ==> params.Nvp <= params.DetailMeshes[4*i+1] && params.DetailMeshes[4*i+1] <= 255)
// what cannot be represented is refused
//@ ensures params.Nvp > 6 || params.VertCount >= 65535 || params.VertCount <= 0 || params.PolyCount <= 0 || params.PolyCount >= 32768 ==> result1 != nil && len(result0) == 0
//@ ensures params.Verts == nil || params.Polys == nil ==> result1 != nil && len(result0) == 0
//@ hook serializeTileData before assert len(navVerts) == 3*int(hdr.VertCount) && len(navPolys) == hdr.PolyCount
//@ hook serializeTileData before assert len(navDMeshes) == hdr.DetailMeshCount && len(navDVerts) == 3*int(hdr.DetailVertCount) && len(navDTris) == 4*int(hdr.DetailTriCount)
//@ hook serializeTileData before assert len(navBvtree) == hdr.BvNodeCount && len(offMeshCons) == hdr.OffMeshConCount
//@ hook serializeTileData before assert hdr.OffMeshBase == params.PolyCount && hdr.PolyCount == params.PolyCount + hdr.OffMeshConCount && hdr.VertCount == params.VertCount + 2*hdr.OffMeshConCount
//@ hook serializeTileData before assert forall k int :: {navPolys[k].Flags} 0 <= k && k < params.PolyCount ==> navPolys[k].Flags == params.PolyFlags[k] && polyRow(navPolys, k, params.Polys, nvp)
//@ hook serializeTileData before assert forall k int, j int :: {navPolys[k].Verts[j]} 0 <= k && k < params.PolyCount && 0 <= j && j < 6 ==> polyEdge(navPolys, k, j, params.Polys, nvp)
//@ modifies nothing
//@ loop 3
//@ invariant 0 <= i && i <= params.OffMeshConCount && 0 <= storedOffMeshConCount && storedOffMeshConCount <= i && 0 <= offMeshConLinkCount && offMeshConLinkCount <= 2*i
//@ noauto
//@ loop 4
//@ invariant 0 <= i && i <= params.PolyCount && 0 <= edgeCount && edgeCount <= 6*i && 0 <= portalCount && portalCount <= 6*i
//@ noauto
//@ loop 5
//@ invariant 0 <= j && j <= nvp && 0 <= edgeCount && edgeCount <= 6*i+j && 0 <= portalCount && portalCount <= 6*i+j
//@ noauto
//@ loop 6
//@ invariant 0 <= i && i <= params.PolyCount && 0 <= uniqueDetailVertCount && uniqueDetailVertCount <= 255*i
//@ loop 7
//@ invariant 0 <= j && j <= nvp && nv == j
//@ noauto
//@ loop 8
//@ invariant 0 <= i && i <= params.PolyCount && detailTriCount <= 4*i && 0 - 2*i <= detailTriCount
//@ loop 9
//@ invariant 0 <= j && j <= nvp && nv == j
//@ noauto
//@ loop 11
//@ noauto
//@ invariant 0 <= i
//@ decreases params.OffMeshConCount - i
//@ loop 12
//@ invariant 0 <= i && i <= params.PolyCount && arr(src) == arr(params.Polys) && off(src) == off(params.Polys) + 2*int(nvp)*int(i)
//@ invariant forall k int :: {navPolys[k].Flags} 0 <= k && k < i ==> navPolys[k].Flags == params.PolyFlags[k] && polyRow(navPolys, k, params.Polys, nvp)
//@ invariant forall k int, j int :: {navPolys[k].Verts[j]} 0 <= k && k < i && 0 <= j && j < 6 ==> polyEdge(navPolys, k, j, params.Polys, nvp)
//@ invariant forall k int, j int :: {navPolys[k].Verts[j]} i <= k && k < len(navPolys) && 0 <= j && j < 6 ==> navPolys[k].Verts[j] == 0 && navPolys[k].Neis[j] == 0
//@ loop 13
//@ invariant 0 <= j && j <= nvp && navPolys[i].VertCount == j && navPolys[i].Flags == params.PolyFlags[i]
//@ invariant forall m int :: {navPolys[i].Verts[m]} 0 <= m && m < j ==> navPolys[i].Verts[m] == src[m] && src[m] != 65535 && int(navPolys[i].Neis[m]) == neiCode(int(src[int(nvp) + m]))
//@ invariant forall m int :: {navPolys[i].Verts[m]} j <= m && m < 6 ==> navPolys[i].Verts[m] == 0 && navPolys[i].Neis[m] == 0
//@ invariant forall k int :: {navPolys[k].Flags} 0 <= k && k < i ==> navPolys[k].Flags == params.PolyFlags[k] && polyRow(navPolys, k, params.Polys, nvp)
//@ invariant forall k int, j int :: {navPolys[k].Verts[j]} 0 <= k && k < i && 0 <= j && j < 6 ==> polyEdge(navPolys, k, j, params.Polys, nvp)
//@ invariant forall k int, j int :: {navPolys[k].Verts[j]} i < k && k < len(navPolys) && 0 <= j && j < 6 ==> navPolys[k].Verts[j] == 0 && navPolys[k].Neis[j] == 0
//@ loop 14
//@ invariant 0 <= n && 0 <= i
//@ invariant forall k int :: {navPolys[k].Flags} 0 <= k && k < params.PolyCount ==> navPolys[k].Flags == params.PolyFlags[k] && polyRow(navPolys, k, params.Polys, nvp)
//@ invariant forall k int, j int :: {navPolys[k].Verts[j]} 0 <= k && k < params.PolyCount && 0 <= j && j < 6 ==> polyEdge(navPolys, k, j, params.Polys, nvp)
//@ decreases params.OffMeshConCount - i
