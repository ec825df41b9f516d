//go:build verif_contracts

package contracts

// C05: binary form of tiles and meshes.

//@ package detour

//@ fn rd16(b []byte, o int) int = int(b[o]) + 256*int(b[o+1])
//@ fn rd32(b []byte, o int) int = int(b[o]) + 256*int(b[o+1]) + 65536*int(b[o+2]) + 16777216*int(b[o+3])
//@ fn rdI32(b []byte, o int) int = rd32(b, o) >= 2147483648 ? rd32(b, o) - 4294967296 : rd32(b, o)
//@ pred rdF32(b []byte, o int, v float32) = math.Float32bits(v) == rd32(b, o)

//@ func detour.(*MeshHeader).unserialize
//@ property C05
//@ requires s != nil && len(src) >= 100
//@ ensures s.Magic == rdI32(src, 0) && s.Version == rdI32(src, 4) && s.X == rdI32(src, 8) && s.Y == rdI32(src, 12) && s.Layer == rdI32(src, 16) && s.UserID == rd32(src, 20)
//@ ensures s.PolyCount == rdI32(src, 24) && s.VertCount == rdI32(src, 28) && s.MaxLinkCount == rdI32(src, 32) && s.DetailMeshCount == rdI32(src, 36) && s.DetailVertCount == rdI32(src, 40) && s.DetailTriCount == rdI32(src, 44)
//@ ensures s.BvNodeCount == rdI32(src, 48) && s.OffMeshConCount == rdI32(src, 52) && s.OffMeshBase == rdI32(src, 56)
//@ ensures rdF32(src, 60, s.WalkableHeight) && rdF32(src, 64, s.WalkableRadius) && rdF32(src, 68, s.WalkableClimb) && rdF32(src, 96, s.BvQuantFactor)
//@ ensures rdF32(src, 72, s.BMin[0]) && rdF32(src, 76, s.BMin[1]) && rdF32(src, 80, s.BMin[2]) && rdF32(src, 84, s.BMax[0]) && rdF32(src, 88, s.BMax[1]) && rdF32(src, 92, s.BMax[2])
//@ modifies *s

//@ pred countsOK(h *MeshHeader) = 0 <= h.PolyCount && 0 <= h.VertCount && 0 <= h.MaxLinkCount && 0 <= h.DetailMeshCount && 0 <= h.DetailVertCount && 0 <= h.DetailTriCount && 0 <= h.BvNodeCount && 0 <= h.OffMeshConCount
//@ fn tileBytes(h *MeshHeader) int = 12*int(h.VertCount) + 32*int(h.PolyCount) + 12*int(h.MaxLinkCount) + 12*int(h.DetailMeshCount) + 12*int(h.DetailVertCount) + 4*int(h.DetailTriCount) + 16*int(h.BvNodeCount) + 36*int(h.OffMeshConCount)

//@ func detour.(*MeshHeader).fits
//@ property C05
//@ requires s != nil
//@ ensures result <==> countsOK(s) && 100 + tileBytes(s) <= n
//@ modifies nothing

//@ pred hdrBytes(h *MeshHeader, b []byte) = rdI32(b, 0) == h.Magic && rdI32(b, 4) == h.Version && rdI32(b, 8) == h.X && rdI32(b, 12) == h.Y && rdI32(b, 16) == h.Layer && rdI32(b, 24) == h.PolyCount && rdI32(b, 28) == h.VertCount && rdI32(b, 32) == h.MaxLinkCount && rdI32(b, 36) == h.DetailMeshCount && rdI32(b, 40) == h.DetailVertCount && rdI32(b, 44) == h.DetailTriCount && rdI32(b, 48) == h.BvNodeCount && rdI32(b, 52) == h.OffMeshConCount && rdI32(b, 56) == h.OffMeshBase && rd32(b, 20) == h.UserID && rdF32(b, 60, h.WalkableHeight) && rdF32(b, 64, h.WalkableRadius) && rdF32(b, 68, h.WalkableClimb) && rdF32(b, 72, h.BMin[0]) && rdF32(b, 76, h.BMin[1]) && rdF32(b, 80, h.BMin[2]) && rdF32(b, 84, h.BMax[0]) && rdF32(b, 88, h.BMax[1]) && rdF32(b, 92, h.BMax[2]) && rdF32(b, 96, h.BvQuantFactor)

//@ func detour.(*MeshHeader).serialize
//@ property C05
//@ requires s != nil && len(dst) >= 100
//@ ensures hdrBytes(s, dst)
//@ ensures forall k int :: {dst[k]} 100 <= k && k < len(dst) ==> dst[k] == old(dst[k])
//@ modifies dst[*]

//@ pred paramBytes(p *NavMeshParams, b []byte, o int) = rdF32(b, o, p.Orig[0]) && rdF32(b, o+4, p.Orig[1]) && rdF32(b, o+8, p.Orig[2]) && rdF32(b, o+12, p.TileWidth) && rdF32(b, o+16, p.TileHeight) && rd32(b, o+20) == p.MaxTiles && rd32(b, o+24) == p.MaxPolys

//@ func detour.(*NavMeshParams).serialize
//@ property C05
//@ requires s != nil && len(dst) >= 28
//@ ensures paramBytes(s, dst, 0)
//@ ensures forall k int :: {dst[k]} 28 <= k && k < len(dst) ==> dst[k] == old(dst[k])
//@ modifies dst[*]

//@ func detour.(*navMeshSetHeader).serialize
//@ property C05
//@ requires s != nil && len(dst) >= 40
//@ ensures rd32(dst, 0) == s.Magic && rd32(dst, 4) == s.Version && rd32(dst, 8) == s.NumTiles && paramBytes(&s.Params, dst, 12)
//@ ensures forall k int :: {dst[k]} 40 <= k && k < len(dst) ==> dst[k] == old(dst[k])
//@ modifies dst[*]

//@ func detour.(*navMeshTileHeader).Serialize
//@ property C05
//@ requires s != nil && len(dst) >= 8
//@ ensures rd32(dst, 0) == s.TileRef && rdI32(dst, 4) == s.DataSize
//@ ensures forall k int :: {dst[k]} 8 <= k && k < len(dst) ==> dst[k] == old(dst[k])
//@ modifies dst[*]
//@ pred vertsBytes0(b []byte, o int, s []float32, n int) = forall i int :: {s[i]} 0 <= i && i < n ==> rdF32(b, o+4*i, s[i])
//@ pred vertsBytes(b []byte, o int, s []float32, n int) = vertsBytes0(b, o, s, n)
//@ pred polysBytes0(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].FirstLink} 0 <= i && i < n ==> rd32(b, o+32*i) == s[i].FirstLink
//@ pred polysBytes1(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Verts[0]} 0 <= i && i < n ==> rd16(b, o+32*i+4) == s[i].Verts[0]
//@ pred polysBytes2(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Verts[1]} 0 <= i && i < n ==> rd16(b, o+32*i+6) == s[i].Verts[1]
//@ pred polysBytes3(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Verts[2]} 0 <= i && i < n ==> rd16(b, o+32*i+8) == s[i].Verts[2]
//@ pred polysBytes4(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Verts[3]} 0 <= i && i < n ==> rd16(b, o+32*i+10) == s[i].Verts[3]
//@ pred polysBytes5(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Verts[4]} 0 <= i && i < n ==> rd16(b, o+32*i+12) == s[i].Verts[4]
//@ pred polysBytes6(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Verts[5]} 0 <= i && i < n ==> rd16(b, o+32*i+14) == s[i].Verts[5]
//@ pred polysBytes7(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Neis[0]} 0 <= i && i < n ==> rd16(b, o+32*i+16) == s[i].Neis[0]
//@ pred polysBytes8(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Neis[1]} 0 <= i && i < n ==> rd16(b, o+32*i+18) == s[i].Neis[1]
//@ pred polysBytes9(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Neis[2]} 0 <= i && i < n ==> rd16(b, o+32*i+20) == s[i].Neis[2]
//@ pred polysBytes10(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Neis[3]} 0 <= i && i < n ==> rd16(b, o+32*i+22) == s[i].Neis[3]
//@ pred polysBytes11(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Neis[4]} 0 <= i && i < n ==> rd16(b, o+32*i+24) == s[i].Neis[4]
//@ pred polysBytes12(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Neis[5]} 0 <= i && i < n ==> rd16(b, o+32*i+26) == s[i].Neis[5]
//@ pred polysBytes13(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].Flags} 0 <= i && i < n ==> rd16(b, o+32*i+28) == s[i].Flags
//@ pred polysBytes14(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].VertCount} 0 <= i && i < n ==> b[o+32*i+30] == s[i].VertCount
//@ pred polysBytes15(b []byte, o int, s []Poly, n int) = forall i int :: {s[i].AreaAndType} 0 <= i && i < n ==> b[o+32*i+31] == s[i].AreaAndType
//@ pred polysBytes(b []byte, o int, s []Poly, n int) = polysBytes0(b, o, s, n) && polysBytes1(b, o, s, n) && polysBytes2(b, o, s, n) && polysBytes3(b, o, s, n) && polysBytes4(b, o, s, n) && polysBytes5(b, o, s, n) && polysBytes6(b, o, s, n) && polysBytes7(b, o, s, n) && polysBytes8(b, o, s, n) && polysBytes9(b, o, s, n) && polysBytes10(b, o, s, n) && polysBytes11(b, o, s, n) && polysBytes12(b, o, s, n) && polysBytes13(b, o, s, n) && polysBytes14(b, o, s, n) && polysBytes15(b, o, s, n)
//@ pred linksBytes0(b []byte, o int, s []Link, n int) = forall i int :: {s[i].Ref} 0 <= i && i < n ==> rd32(b, o+12*i) == s[i].Ref
//@ pred linksBytes1(b []byte, o int, s []Link, n int) = forall i int :: {s[i].Next} 0 <= i && i < n ==> rd32(b, o+12*i+4) == s[i].Next
//@ pred linksBytes2(b []byte, o int, s []Link, n int) = forall i int :: {s[i].Edge} 0 <= i && i < n ==> b[o+12*i+8] == s[i].Edge
//@ pred linksBytes3(b []byte, o int, s []Link, n int) = forall i int :: {s[i].Side} 0 <= i && i < n ==> b[o+12*i+9] == s[i].Side
//@ pred linksBytes4(b []byte, o int, s []Link, n int) = forall i int :: {s[i].BMin} 0 <= i && i < n ==> b[o+12*i+10] == s[i].BMin
//@ pred linksBytes5(b []byte, o int, s []Link, n int) = forall i int :: {s[i].BMax} 0 <= i && i < n ==> b[o+12*i+11] == s[i].BMax
//@ pred linksBytes(b []byte, o int, s []Link, n int) = linksBytes0(b, o, s, n) && linksBytes1(b, o, s, n) && linksBytes2(b, o, s, n) && linksBytes3(b, o, s, n) && linksBytes4(b, o, s, n) && linksBytes5(b, o, s, n)
//@ pred dmeshesBytes0(b []byte, o int, s []PolyDetail, n int) = forall i int :: {s[i].VertBase} 0 <= i && i < n ==> rd32(b, o+12*i) == s[i].VertBase
//@ pred dmeshesBytes1(b []byte, o int, s []PolyDetail, n int) = forall i int :: {s[i].TriBase} 0 <= i && i < n ==> rd32(b, o+12*i+4) == s[i].TriBase
//@ pred dmeshesBytes2(b []byte, o int, s []PolyDetail, n int) = forall i int :: {s[i].VertCount} 0 <= i && i < n ==> b[o+12*i+8] == s[i].VertCount
//@ pred dmeshesBytes3(b []byte, o int, s []PolyDetail, n int) = forall i int :: {s[i].TriCount} 0 <= i && i < n ==> b[o+12*i+9] == s[i].TriCount
//@ pred dmeshesBytes(b []byte, o int, s []PolyDetail, n int) = dmeshesBytes0(b, o, s, n) && dmeshesBytes1(b, o, s, n) && dmeshesBytes2(b, o, s, n) && dmeshesBytes3(b, o, s, n)
//@ pred dvertsBytes0(b []byte, o int, s []float32, n int) = forall i int :: {s[i]} 0 <= i && i < n ==> rdF32(b, o+4*i, s[i])
//@ pred dvertsBytes(b []byte, o int, s []float32, n int) = dvertsBytes0(b, o, s, n)
//@ pred dtrisBytes0(b []byte, o int, s []uint8, n int) = forall i int :: {s[i]} 0 <= i && i < n ==> b[o+i] == s[i]
//@ pred dtrisBytes(b []byte, o int, s []uint8, n int) = dtrisBytes0(b, o, s, n)
//@ pred bvtreeBytes0(b []byte, o int, s []BvNode, n int) = forall i int :: {s[i].BMin[0]} 0 <= i && i < n ==> rd16(b, o+16*i) == s[i].BMin[0]
//@ pred bvtreeBytes1(b []byte, o int, s []BvNode, n int) = forall i int :: {s[i].BMin[1]} 0 <= i && i < n ==> rd16(b, o+16*i+2) == s[i].BMin[1]
//@ pred bvtreeBytes2(b []byte, o int, s []BvNode, n int) = forall i int :: {s[i].BMin[2]} 0 <= i && i < n ==> rd16(b, o+16*i+4) == s[i].BMin[2]
//@ pred bvtreeBytes3(b []byte, o int, s []BvNode, n int) = forall i int :: {s[i].BMax[0]} 0 <= i && i < n ==> rd16(b, o+16*i+6) == s[i].BMax[0]
//@ pred bvtreeBytes4(b []byte, o int, s []BvNode, n int) = forall i int :: {s[i].BMax[1]} 0 <= i && i < n ==> rd16(b, o+16*i+8) == s[i].BMax[1]
//@ pred bvtreeBytes5(b []byte, o int, s []BvNode, n int) = forall i int :: {s[i].BMax[2]} 0 <= i && i < n ==> rd16(b, o+16*i+10) == s[i].BMax[2]
//@ pred bvtreeBytes6(b []byte, o int, s []BvNode, n int) = forall i int :: {s[i].I} 0 <= i && i < n ==> rdI32(b, o+16*i+12) == s[i].I
//@ pred bvtreeBytes(b []byte, o int, s []BvNode, n int) = bvtreeBytes0(b, o, s, n) && bvtreeBytes1(b, o, s, n) && bvtreeBytes2(b, o, s, n) && bvtreeBytes3(b, o, s, n) && bvtreeBytes4(b, o, s, n) && bvtreeBytes5(b, o, s, n) && bvtreeBytes6(b, o, s, n)
//@ pred offMeshConsBytes0(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Pos[0]} 0 <= i && i < n ==> rdF32(b, o+36*i, s[i].Pos[0])
//@ pred offMeshConsBytes1(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Pos[1]} 0 <= i && i < n ==> rdF32(b, o+36*i+4, s[i].Pos[1])
//@ pred offMeshConsBytes2(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Pos[2]} 0 <= i && i < n ==> rdF32(b, o+36*i+8, s[i].Pos[2])
//@ pred offMeshConsBytes3(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Pos[3]} 0 <= i && i < n ==> rdF32(b, o+36*i+12, s[i].Pos[3])
//@ pred offMeshConsBytes4(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Pos[4]} 0 <= i && i < n ==> rdF32(b, o+36*i+16, s[i].Pos[4])
//@ pred offMeshConsBytes5(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Pos[5]} 0 <= i && i < n ==> rdF32(b, o+36*i+20, s[i].Pos[5])
//@ pred offMeshConsBytes6(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Rad} 0 <= i && i < n ==> rdF32(b, o+36*i+24, s[i].Rad)
//@ pred offMeshConsBytes7(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Poly} 0 <= i && i < n ==> rd16(b, o+36*i+28) == s[i].Poly
//@ pred offMeshConsBytes8(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Flags} 0 <= i && i < n ==> b[o+36*i+30] == s[i].Flags
//@ pred offMeshConsBytes9(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].Side} 0 <= i && i < n ==> b[o+36*i+31] == s[i].Side
//@ pred offMeshConsBytes10(b []byte, o int, s []OffMeshConnection, n int) = forall i int :: {s[i].UserID} 0 <= i && i < n ==> rd32(b, o+36*i+32) == s[i].UserID
//@ pred offMeshConsBytes(b []byte, o int, s []OffMeshConnection, n int) = offMeshConsBytes0(b, o, s, n) && offMeshConsBytes1(b, o, s, n) && offMeshConsBytes2(b, o, s, n) && offMeshConsBytes3(b, o, s, n) && offMeshConsBytes4(b, o, s, n) && offMeshConsBytes5(b, o, s, n) && offMeshConsBytes6(b, o, s, n) && offMeshConsBytes7(b, o, s, n) && offMeshConsBytes8(b, o, s, n) && offMeshConsBytes9(b, o, s, n) && offMeshConsBytes10(b, o, s, n)

//@ func detour.serializeTileData
//@ property C05
//@ ghost ob int
//@ requires len(dst) >= 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris) + 16*len(bvtree) + 36*len(offMeshCons)
//@ requires root(dst) != root(verts) && root(dst) != root(polys) && root(dst) != root(links) && root(dst) != root(dmeshes) && root(dst) != root(dverts) && root(dst) != root(dtris) && root(dst) != root(bvtree) && root(dst) != root(offMeshCons)
//@ ensures vertsBytes(dst, 0, verts, len(verts))
//@ ensures polysBytes(dst, 4*len(verts), polys, len(polys))
//@ ensures linksBytes(dst, 4*len(verts) + 32*len(polys), links, len(links))
//@ ensures dmeshesBytes(dst, 4*len(verts) + 32*len(polys) + 12*len(links), dmeshes, len(dmeshes))
//@ ensures dvertsBytes(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes), dverts, len(dverts))
//@ ensures dtrisBytes(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts), dtris, len(dtris))
//@ ensures bvtreeBytes(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, len(bvtree))
//@ ensures offMeshConsBytes(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris) + 16*len(bvtree), offMeshCons, len(offMeshCons))
//@ ensures forall k int :: {dst[k]} 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris) + 16*len(bvtree) + 36*len(offMeshCons) <= k && k < len(dst) ==> dst[k] == old(dst[k])
//@ modifies dst[*]
//@ loop 1
//@ invariant off == 0 + 4*$i
//@ invariant vertsBytes0(dst, 0, verts, $i)
//@ endassert rdF32(dst, iter(off)+0, f)
//@ endassert forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < iter(off) || k >= off) ==> dst[k] == iter(dst[k])
//@ endfreeze *uint8
//@ invariant forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < 0 || k >= off) ==> dst[k] == before(dst[k])
//@ loop 2
//@ init ob = 4*len(verts)
//@ step ob = ob
//@ invariant ob == 4*len(verts)
//@ invariant off == ob + 32*$i
//@ invariant polysBytes0(dst, ob, polys, $i)
//@ invariant polysBytes1(dst, ob, polys, $i)
//@ invariant polysBytes2(dst, ob, polys, $i)
//@ invariant polysBytes3(dst, ob, polys, $i)
//@ invariant polysBytes4(dst, ob, polys, $i)
//@ invariant polysBytes5(dst, ob, polys, $i)
//@ invariant polysBytes6(dst, ob, polys, $i)
//@ invariant polysBytes7(dst, ob, polys, $i)
//@ invariant polysBytes8(dst, ob, polys, $i)
//@ invariant polysBytes9(dst, ob, polys, $i)
//@ invariant polysBytes10(dst, ob, polys, $i)
//@ invariant polysBytes11(dst, ob, polys, $i)
//@ invariant polysBytes12(dst, ob, polys, $i)
//@ invariant polysBytes13(dst, ob, polys, $i)
//@ invariant polysBytes14(dst, ob, polys, $i)
//@ invariant polysBytes15(dst, ob, polys, $i)
//@ endassert rd32(dst, iter(off)+0) == polys[i].FirstLink
//@ endassert rd16(dst, iter(off)+4) == polys[i].Verts[0]
//@ endassert rd16(dst, iter(off)+6) == polys[i].Verts[1]
//@ endassert rd16(dst, iter(off)+8) == polys[i].Verts[2]
//@ endassert rd16(dst, iter(off)+10) == polys[i].Verts[3]
//@ endassert rd16(dst, iter(off)+12) == polys[i].Verts[4]
//@ endassert rd16(dst, iter(off)+14) == polys[i].Verts[5]
//@ endassert rd16(dst, iter(off)+16) == polys[i].Neis[0]
//@ endassert rd16(dst, iter(off)+18) == polys[i].Neis[1]
//@ endassert rd16(dst, iter(off)+20) == polys[i].Neis[2]
//@ endassert rd16(dst, iter(off)+22) == polys[i].Neis[3]
//@ endassert rd16(dst, iter(off)+24) == polys[i].Neis[4]
//@ endassert rd16(dst, iter(off)+26) == polys[i].Neis[5]
//@ endassert rd16(dst, iter(off)+28) == polys[i].Flags
//@ endassert dst[iter(off)+30] == polys[i].VertCount
//@ endassert dst[iter(off)+31] == polys[i].AreaAndType
//@ endassert forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < iter(off) || k >= off) ==> dst[k] == iter(dst[k])
//@ endfreeze *uint8
//@ invariant forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < ob || k >= off) ==> dst[k] == before(dst[k])
//@ loop 3
//@ invariant off == 4*len(verts) + 32*len(polys) + 12*$i
//@ invariant linksBytes0(dst, 4*len(verts) + 32*len(polys), links, $i)
//@ invariant linksBytes1(dst, 4*len(verts) + 32*len(polys), links, $i)
//@ invariant linksBytes2(dst, 4*len(verts) + 32*len(polys), links, $i)
//@ invariant linksBytes3(dst, 4*len(verts) + 32*len(polys), links, $i)
//@ invariant linksBytes4(dst, 4*len(verts) + 32*len(polys), links, $i)
//@ invariant linksBytes5(dst, 4*len(verts) + 32*len(polys), links, $i)
//@ endassert rd32(dst, iter(off)+0) == links[i].Ref
//@ endassert rd32(dst, iter(off)+4) == links[i].Next
//@ endassert dst[iter(off)+8] == links[i].Edge
//@ endassert dst[iter(off)+9] == links[i].Side
//@ endassert dst[iter(off)+10] == links[i].BMin
//@ endassert dst[iter(off)+11] == links[i].BMax
//@ endassert forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < iter(off) || k >= off) ==> dst[k] == iter(dst[k])
//@ endfreeze *uint8
//@ invariant forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < 4*len(verts) + 32*len(polys) || k >= off) ==> dst[k] == before(dst[k])
//@ loop 4
//@ invariant off == 4*len(verts) + 32*len(polys) + 12*len(links) + 12*$i
//@ invariant dmeshesBytes0(dst, 4*len(verts) + 32*len(polys) + 12*len(links), dmeshes, $i)
//@ invariant dmeshesBytes1(dst, 4*len(verts) + 32*len(polys) + 12*len(links), dmeshes, $i)
//@ invariant dmeshesBytes2(dst, 4*len(verts) + 32*len(polys) + 12*len(links), dmeshes, $i)
//@ invariant dmeshesBytes3(dst, 4*len(verts) + 32*len(polys) + 12*len(links), dmeshes, $i)
//@ endassert rd32(dst, iter(off)+0) == dmeshes[i].VertBase
//@ endassert rd32(dst, iter(off)+4) == dmeshes[i].TriBase
//@ endassert dst[iter(off)+8] == dmeshes[i].VertCount
//@ endassert dst[iter(off)+9] == dmeshes[i].TriCount
//@ endassert forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < iter(off) || k >= off) ==> dst[k] == iter(dst[k])
//@ endfreeze *uint8
//@ invariant forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < 4*len(verts) + 32*len(polys) + 12*len(links) || k >= off) ==> dst[k] == before(dst[k])
//@ loop 5
//@ invariant off == 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*$i
//@ invariant dvertsBytes0(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes), dverts, $i)
//@ endassert rdF32(dst, iter(off)+0, dverts[i])
//@ endassert forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < iter(off) || k >= off) ==> dst[k] == iter(dst[k])
//@ endfreeze *uint8
//@ invariant forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) || k >= off) ==> dst[k] == before(dst[k])
//@ loop 6
//@ invariant off == 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris) + 16*$i
//@ invariant bvtreeBytes0(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, $i)
//@ invariant bvtreeBytes1(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, $i)
//@ invariant bvtreeBytes2(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, $i)
//@ invariant bvtreeBytes3(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, $i)
//@ invariant bvtreeBytes4(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, $i)
//@ invariant bvtreeBytes5(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, $i)
//@ invariant bvtreeBytes6(dst, 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris), bvtree, $i)
//@ endassert rd16(dst, iter(off)+0) == bvtree[i].BMin[0]
//@ endassert rd16(dst, iter(off)+2) == bvtree[i].BMin[1]
//@ endassert rd16(dst, iter(off)+4) == bvtree[i].BMin[2]
//@ endassert rd16(dst, iter(off)+6) == bvtree[i].BMax[0]
//@ endassert rd16(dst, iter(off)+8) == bvtree[i].BMax[1]
//@ endassert rd16(dst, iter(off)+10) == bvtree[i].BMax[2]
//@ endassert rdI32(dst, iter(off)+12) == bvtree[i].I
//@ endassert forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < iter(off) || k >= off) ==> dst[k] == iter(dst[k])
//@ endfreeze *uint8
//@ invariant forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris) || k >= off) ==> dst[k] == before(dst[k])
//@ loop 7
//@ init ob = 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris) + 16*len(bvtree)
//@ step ob = ob
//@ invariant ob == 4*len(verts) + 32*len(polys) + 12*len(links) + 12*len(dmeshes) + 4*len(dverts) + len(dtris) + 16*len(bvtree)
//@ invariant off == ob + 36*$i
//@ invariant offMeshConsBytes0(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes1(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes2(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes3(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes4(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes5(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes6(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes7(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes8(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes9(dst, ob, offMeshCons, $i)
//@ invariant offMeshConsBytes10(dst, ob, offMeshCons, $i)
//@ endassert rdF32(dst, iter(off)+0, offMeshCons[i].Pos[0])
//@ endassert rdF32(dst, iter(off)+4, offMeshCons[i].Pos[1])
//@ endassert rdF32(dst, iter(off)+8, offMeshCons[i].Pos[2])
//@ endassert rdF32(dst, iter(off)+12, offMeshCons[i].Pos[3])
//@ endassert rdF32(dst, iter(off)+16, offMeshCons[i].Pos[4])
//@ endassert rdF32(dst, iter(off)+20, offMeshCons[i].Pos[5])
//@ endassert rdF32(dst, iter(off)+24, offMeshCons[i].Rad)
//@ endassert rd16(dst, iter(off)+28) == offMeshCons[i].Poly
//@ endassert dst[iter(off)+30] == offMeshCons[i].Flags
//@ endassert dst[iter(off)+31] == offMeshCons[i].Side
//@ endassert rd32(dst, iter(off)+32) == offMeshCons[i].UserID
//@ endassert forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < iter(off) || k >= off) ==> dst[k] == iter(dst[k])
//@ endfreeze *uint8
//@ invariant forall k int :: {dst[k]} 0 <= k && k < len(dst) && (k < ob || k >= off) ==> dst[k] == before(dst[k])

//@ func detour.(*MeshTile).unserialize
//@ property C05
//@ requires s != nil && hdr != nil && countsOK(hdr) && tileBytes(hdr) <= len(src) && len(src) < 2147483648
//@ ensures len(s.Verts) == 3*hdr.VertCount && len(s.Polys) == hdr.PolyCount && len(s.Links) == hdr.MaxLinkCount && len(s.DetailMeshes) == hdr.DetailMeshCount && len(s.DetailVerts) == 3*hdr.DetailVertCount && len(s.DetailTris) == 4*hdr.DetailTriCount && len(s.BvTree) == hdr.BvNodeCount && len(s.OffMeshCons) == hdr.OffMeshConCount
//@ ensures vertsBytes(src, 0, s.Verts, len(s.Verts))
//@ ensures polysBytes(src, 4*len(s.Verts), s.Polys, len(s.Polys))
//@ ensures linksBytes(src, 4*len(s.Verts) + 32*len(s.Polys), s.Links, len(s.Links))
//@ ensures dmeshesBytes(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links), s.DetailMeshes, len(s.DetailMeshes))
//@ ensures dvertsBytes(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes), s.DetailVerts, len(s.DetailVerts))
//@ ensures dtrisBytes(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts), s.DetailTris, len(s.DetailTris))
//@ ensures bvtreeBytes(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, len(s.BvTree))
//@ ensures offMeshConsBytes(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, len(s.OffMeshCons))
//@ ensures fresh(s.Verts) && fresh(s.Polys) && fresh(s.Links) && fresh(s.DetailMeshes) && fresh(s.DetailVerts) && fresh(s.DetailTris) && fresh(s.BvTree) && fresh(s.OffMeshCons)
//@ modifies s.Verts, s.Polys, s.Links, s.DetailMeshes, s.DetailVerts, s.DetailTris, s.BvTree, s.OffMeshCons
//@ loop 1
//@ invariant off == 0 + 4*$i
//@ invariant vertsBytes0(src, 0, s.Verts, $i)
//@ loop 2
//@ invariant off == 4*len(s.Verts) + 32*$i
//@ invariant polysBytes0(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes1(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes2(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes3(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes4(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes5(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes6(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes7(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes8(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes9(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes10(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes11(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes12(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes13(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes14(src, 4*len(s.Verts), s.Polys, $i)
//@ invariant polysBytes15(src, 4*len(s.Verts), s.Polys, $i)
//@ loop 3
//@ invariant off == 4*len(s.Verts) + 32*len(s.Polys) + 12*$i
//@ invariant linksBytes0(src, 4*len(s.Verts) + 32*len(s.Polys), s.Links, $i)
//@ invariant linksBytes1(src, 4*len(s.Verts) + 32*len(s.Polys), s.Links, $i)
//@ invariant linksBytes2(src, 4*len(s.Verts) + 32*len(s.Polys), s.Links, $i)
//@ invariant linksBytes3(src, 4*len(s.Verts) + 32*len(s.Polys), s.Links, $i)
//@ invariant linksBytes4(src, 4*len(s.Verts) + 32*len(s.Polys), s.Links, $i)
//@ invariant linksBytes5(src, 4*len(s.Verts) + 32*len(s.Polys), s.Links, $i)
//@ loop 4
//@ invariant off == 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*$i
//@ invariant dmeshesBytes0(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links), s.DetailMeshes, $i)
//@ invariant dmeshesBytes1(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links), s.DetailMeshes, $i)
//@ invariant dmeshesBytes2(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links), s.DetailMeshes, $i)
//@ invariant dmeshesBytes3(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links), s.DetailMeshes, $i)
//@ loop 5
//@ invariant off == 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*$i
//@ invariant dvertsBytes0(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes), s.DetailVerts, $i)
//@ invariant vertsBytes(src, 0, s.Verts, len(s.Verts))
//@ loop 6
//@ invariant off == 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*$i
//@ invariant bvtreeBytes0(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, $i)
//@ invariant bvtreeBytes1(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, $i)
//@ invariant bvtreeBytes2(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, $i)
//@ invariant bvtreeBytes3(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, $i)
//@ invariant bvtreeBytes4(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, $i)
//@ invariant bvtreeBytes5(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, $i)
//@ invariant bvtreeBytes6(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris), s.BvTree, $i)
//@ loop 7
//@ invariant off == 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree) + 36*$i
//@ invariant offMeshConsBytes0(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes1(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes2(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes3(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes4(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes5(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes6(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes7(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes8(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes9(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)
//@ invariant offMeshConsBytes10(src, 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree), s.OffMeshCons, $i)

//@ pred sectionsIn(t *MeshTile, b []byte) = vertsBytes(b, 0, t.Verts, len(t.Verts)) && polysBytes(b, 4*len(t.Verts), t.Polys, len(t.Polys)) && linksBytes(b, 4*len(t.Verts) + 32*len(t.Polys), t.Links, len(t.Links)) && dmeshesBytes(b, 4*len(t.Verts) + 32*len(t.Polys) + 12*len(t.Links), t.DetailMeshes, len(t.DetailMeshes)) && dvertsBytes(b, 4*len(t.Verts) + 32*len(t.Polys) + 12*len(t.Links) + 12*len(t.DetailMeshes), t.DetailVerts, len(t.DetailVerts)) && dtrisBytes(b, 4*len(t.Verts) + 32*len(t.Polys) + 12*len(t.Links) + 12*len(t.DetailMeshes) + 4*len(t.DetailVerts), t.DetailTris, len(t.DetailTris)) && bvtreeBytes(b, 4*len(t.Verts) + 32*len(t.Polys) + 12*len(t.Links) + 12*len(t.DetailMeshes) + 4*len(t.DetailVerts) + len(t.DetailTris), t.BvTree, len(t.BvTree)) && offMeshConsBytes(b, 4*len(t.Verts) + 32*len(t.Polys) + 12*len(t.Links) + 12*len(t.DetailMeshes) + 4*len(t.DetailVerts) + len(t.DetailTris) + 16*len(t.BvTree), t.OffMeshCons, len(t.OffMeshCons))

//@ func detour.(*MeshTile).serialize
//@ property C05
//@ requires s != nil && len(dst) >= 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree) + 36*len(s.OffMeshCons)
//@ requires root(dst) != root(s.Verts) && root(dst) != root(s.Polys) && root(dst) != root(s.Links) && root(dst) != root(s.DetailMeshes) && root(dst) != root(s.DetailVerts) && root(dst) != root(s.DetailTris) && root(dst) != root(s.BvTree) && root(dst) != root(s.OffMeshCons)
//@ ensures sectionsIn(s, dst)
//@ modifies dst[*]

// the tile's slices have the lengths its header announces
//@ pred tileSized(t *MeshTile) = t.Header != nil && countsOK(t.Header) && 100 + tileBytes(t.Header) <= t.DataSize && len(t.Verts) == 3*t.Header.VertCount && len(t.Polys) == t.Header.PolyCount && len(t.Links) == t.Header.MaxLinkCount && len(t.DetailMeshes) == t.Header.DetailMeshCount && len(t.DetailVerts) == 3*t.Header.DetailVertCount && len(t.DetailTris) == 4*t.Header.DetailTriCount && len(t.BvTree) == t.Header.BvNodeCount && len(t.OffMeshCons) == t.Header.OffMeshConCount

//@ package io
// Writers do not change what they are given to write.
//@ func io.Writer.Write
//@ trusted the io.Writer contract
//@ modifies nothing

//@ package detour
//@ func detour.(*navMeshSetHeader).WriteTo
//@ property C05
//@ requires s != nil && w != nil
//@ hook Write before assert len(buf) == 40 && rd32(buf, 0) == s.Magic && rd32(buf, 4) == s.Version && rd32(buf, 8) == s.NumTiles && paramBytes(&s.Params, buf, 12)
//@ modifies nothing

//@ func detour.(*navMeshTileHeader).WriteTo
//@ property C05
//@ requires s != nil && w != nil
//@ hook Write before assert len(buf) == 8 && rd32(buf, 0) == s.TileRef && rdI32(buf, 4) == s.DataSize
//@ modifies nothing

//@ func detour.(*NavMesh).ToWriter
//@ property C05
//@ variant frame -detour.(*MeshTile).serialize -detour.(*MeshHeader).serialize
//@ requires m != nil && w != nil && 0 <= m.MaxTiles && m.MaxTiles == len(m.Tiles)
//@ requires forall i int :: {m.Tiles[i].DataSize} 0 <= i && i < len(m.Tiles) && m.Tiles[i].DataSize != 0 ==> tileSized(&m.Tiles[i])
//@ ghost cnt seq int
//@ ghost done int = 0
//@ ghost tref TileRef
//@ loop 1
//@ init cnt = constseq(0)
//@ step cnt = update(cnt, i+1, header.NumTiles)
//@ invariant 0 <= i && i <= m.MaxTiles && 0 <= header.NumTiles && header.NumTiles <= i && cnt[0] == 0 && cnt[i] == header.NumTiles
//@ invariant header.Magic == navMeshSetMagic && header.Version == navMeshSetVersion
//@ invariant forall k int :: {m.Tiles[k].DataSize} 0 <= k && k < i ==> cnt[k+1] == cnt[k] + (m.Tiles[k].DataSize == 0 ? 0 : 1)
//@ decreases m.MaxTiles - i
//@ hook WriteTo#1 before assert header.Magic == navMeshSetMagic && header.Version == navMeshSetVersion && header.NumTiles == cnt[m.MaxTiles]
//@ hook Write after ghost done = done + 1
//@ loop 2
//@ invariant 0 <= i && i <= m.MaxTiles && done == cnt[i]
//@ decreases m.MaxTiles - i
//@ hook TileRef before assert tile == &m.Tiles[i]
//@ hook TileRef after ghost tref = $res
//@ hook WriteTo#2 before assert tileHeader.DataSize == tile.DataSize && tileHeader.TileRef == tref
//@ hook Write before assert len(data) == tile.DataSize && hdrBytes(tile.Header, data) && sectionsIn(tile, data[100:])
//@ ensures result == nil ==> done == cnt[m.MaxTiles]
//@ modifies nothing

// the reference stored with a tile is the reference of its slot
//@ func detour.(*MeshHeader).serialize#frame
//@ property C05
//@ requires s != nil && len(dst) >= 100
//@ modifies dst[*]

//@ func detour.(*MeshTile).serialize#frame
//@ property C05
//@ requires s != nil && len(dst) >= 4*len(s.Verts) + 32*len(s.Polys) + 12*len(s.Links) + 12*len(s.DetailMeshes) + 4*len(s.DetailVerts) + len(s.DetailTris) + 16*len(s.BvTree) + 36*len(s.OffMeshCons)
//@ requires root(dst) != root(s.Verts) && root(dst) != root(s.Polys) && root(dst) != root(s.Links) && root(dst) != root(s.DetailMeshes) && root(dst) != root(s.DetailVerts) && root(dst) != root(s.DetailTris) && root(dst) != root(s.BvTree) && root(dst) != root(s.OffMeshCons)
//@ modifies dst[*]

//@ func detour.(*NavMesh).ToWriter#refs
//@ property C05
//@ variant frame -detour.(*NavMesh).TileRef
//@ requires m != nil && w != nil && 0 <= m.MaxTiles && m.MaxTiles == len(m.Tiles) && saltsOK(m)
//@ requires forall i int :: {m.Tiles[i].DataSize} 0 <= i && i < len(m.Tiles) && m.Tiles[i].DataSize != 0 ==> tileSized(&m.Tiles[i])
//@ ghost tref TileRef
//@ loop 1
//@ invariant 0 <= i && i <= m.MaxTiles && 0 <= header.NumTiles && header.NumTiles <= i
//@ decreases m.MaxTiles - i
//@ loop 2
//@ invariant 0 <= i && i <= m.MaxTiles
//@ decreases m.MaxTiles - i
//@ hook TileRef before ghost arg:k = int(i)
//@ hook TileRef before assert tile == &m.Tiles[i] && tile.Salt == m.Tiles[i].Salt
//@ hook TileRef before assert splitOK(m) && inBits(m.Tiles[i].Salt, m.saltBits) && int(i) < int(1) << m.tileBits
//@ hook TileRef after ghost tref = $res
//@ hook TileRef after assert refTile(m, PolyRef($res)) == uint32(int(i))
//@ hook TileRef after assert refOfSlot(m, $res, int(i))
//@ hook WriteTo#2 before assert tileHeader.TileRef == tref
//@ modifies nothing

// ---- every stored tile has the sizes its header announces ----
//@ pred allSized(m *NavMesh) = forall i int :: {m.Tiles[i].DataSize} 0 <= i && i < len(m.Tiles) && m.Tiles[i].DataSize != 0 ==> tileSized(&m.Tiles[i])

//@ func detour.(*NavMesh).TileAt#frame
//@ property C05
//@ maypanic
//@ overflow wrap
//@ requires m != nil && 0 <= m.TileLUTMask
//@ noterm
//@ modifies nothing

//@ func detour.(*NavMesh).TilesAt#frame
//@ property C05
//@ maypanic
//@ overflow wrap
//@ requires m != nil && 0 <= m.TileLUTMask
//@ noterm
//@ modifies tiles[*]

//@ func detour.(*NavMesh).neighbourTilesAt#frame
//@ property C05
//@ variant frame
//@ maypanic
//@ overflow wrap
//@ requires m != nil && 0 <= m.TileLUTMask
//@ modifies tiles[*]

//@ func detour.(*NavMesh).AddTile#sized
//@ property C05 C06
//@ variant frame
//@ maypanic
//@ overflow wrap
//@ requires m != nil && 0 <= m.TileLUTMask && allSized(m) && len(data) < 2147483648
//@ ensures allSized(m)
//@ noterm
//@ modifies m.nextFree, m.posLookup[*], MeshTile.Salt, MeshTile.LinksFreeList, MeshTile.Header, MeshTile.Polys, MeshTile.Verts, MeshTile.Links, MeshTile.DetailMeshes, MeshTile.DetailVerts, MeshTile.DetailTris, MeshTile.BvTree, MeshTile.OffMeshCons, MeshTile.Data, MeshTile.DataSize, MeshTile.Flags, MeshTile.Next, heapof(float32), Poly.FirstLink, Link.Ref, Link.Next, Link.Edge, Link.Side, Link.BMin, Link.BMax
//@ loop 4
//@ keep

//@ func detour.(*NavMesh).RemoveTile#sized
//@ property C05
//@ variant frame
//@ maypanic
//@ overflow wrap
//@ requires m != nil && 0 <= m.TileLUTMask && allSized(m)
//@ ensures allSized(m)
//@ noterm
//@ modifies m.nextFree, m.posLookup[*], MeshTile.Salt, MeshTile.LinksFreeList, MeshTile.Header, MeshTile.Polys, MeshTile.Verts, MeshTile.Links, MeshTile.DetailMeshes, MeshTile.DetailVerts, MeshTile.DetailTris, MeshTile.BvTree, MeshTile.OffMeshCons, MeshTile.Data, MeshTile.DataSize, MeshTile.Flags, MeshTile.Next, Poly.FirstLink, Link.Next
//@ loop 3
//@ keep

//@ func detour.(*NavMesh).Init#sized
//@ property C05 C06
//@ requires m != nil && params != nil && len(m.Tiles) == 0
//@ maypanic
//@ ensures allSized(m)
//@ ensures !StatusFailed(result) ==> 0 <= m.TileLUTMask
//@ loop 1
//@ invariant forall k int :: {m.Tiles[k].DataSize} 0 <= k && k < len(m.Tiles) ==> m.Tiles[k].DataSize == 0
//@ modifies m.Params, m.Orig, m.TileWidth, m.TileHeight, m.MaxTiles, m.TileLUTSize, m.TileLUTMask, m.posLookup, m.nextFree, m.Tiles, m.saltBits, m.tileBits, m.polyBits

// ---- the announced size ----
//@ pred sizesUpTo(m *NavMesh, acc seq int) = acc[0] == 0 && (forall k int :: {m.Tiles[k].DataSize} 0 <= k && k < len(m.Tiles) ==> acc[k+1] == acc[k] + (m.Tiles[k].DataSize == 0 ? 0 : 8 + m.Tiles[k].DataSize) && 0 <= acc[k] && acc[k] <= acc[len(m.Tiles)])

//@ func detour.(*NavMesh).Size
//@ property C05
//@ gparam acc seq int
//@ requires m != nil && 0 <= m.MaxTiles && m.MaxTiles == len(m.Tiles)
//@ requires sizesUpTo(m, acc) && 0 <= acc[len(m.Tiles)] && acc[len(m.Tiles)] < 2147483648-40 && (forall k int :: {m.Tiles[k].DataSize} 0 <= k && k < len(m.Tiles) ==> 0 <= m.Tiles[k].DataSize && 8 + m.Tiles[k].DataSize < 2147483648-40)
//@ ensures result == 40 + acc[len(m.Tiles)]
//@ modifies nothing
//@ loop 1
//@ invariant 0 <= i && i <= m.MaxTiles && tilesSize == acc[i]
//@ decreases m.MaxTiles - i
