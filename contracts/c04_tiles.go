//go:build verif_contracts

package contracts

// C04: the tile table.

//@ package detour

// Ghost view of the table: cls[i] is the list slot i is in (-1: free, else the
// bucket, -2: in none), nx[i] its successor (-1: none), hd[c] the first slot of list c
// (hd[-1]: free list) and rk falls along every list.
//@ pred tableShape(m *NavMesh) = m != nil && 0 <= m.MaxTiles && m.MaxTiles == len(m.Tiles) && 1 <= m.TileLUTSize && m.TileLUTSize == len(m.posLookup) && m.TileLUTMask == m.TileLUTSize-1
//@ pred tableClass(m *NavMesh, cls seq int) = forall i int :: {m.Tiles[i].Header} {cls[i]} 0 <= i && i < len(m.Tiles) ==> -2 <= cls[i] && cls[i] < m.TileLUTSize && (cls[i] == -1 <==> m.Tiles[i].Header == nil) && (m.Tiles[i].Header != nil && cls[i] != -2 ==> cls[i] == computeTileHash(m.Tiles[i].Header.X, m.Tiles[i].Header.Y, m.TileLUTMask))
//@ pred tableNext(m *NavMesh, cls seq int, rk seq int, nx seq int) = forall i int :: {m.Tiles[i].Next} {nx[i]} 0 <= i && i < len(m.Tiles) && cls[i] != -2 ==> 0 <= rk[i] && (nx[i] == -1 ? m.Tiles[i].Next == nil : 0 <= nx[i] && nx[i] < len(m.Tiles) && m.Tiles[i].Next == &m.Tiles[nx[i]] && cls[nx[i]] == cls[i] && rk[nx[i]] < rk[i])
//@ pred tableGaps(m *NavMesh, cls seq int, rk seq int, nx seq int) = forall i int, j int :: {cls[i], cls[j]} 0 <= i && i < len(m.Tiles) && 0 <= j && j < len(m.Tiles) && i != j && cls[i] == cls[j] && cls[i] != -2 ==> rk[i] != rk[j] && (rk[j] < rk[i] ==> nx[i] != -1 && rk[j] <= rk[nx[i]])
//@ pred tableHeads(m *NavMesh, cls seq int, rk seq int, hd seq int) = (forall i int :: {cls[i]} 0 <= i && i < len(m.Tiles) && cls[i] != -2 ==> hd[cls[i]] != -1 && rk[i] <= rk[hd[cls[i]]]) && (forall c int :: {hd[c]} -1 <= c && c < m.TileLUTSize ==> hd[c] == -1 || (0 <= hd[c] && hd[c] < len(m.Tiles) && cls[hd[c]] == c)) && (m.nextFree == (hd[-1] == -1 ? nil : &m.Tiles[hd[-1]])) && (forall c int :: {m.posLookup[c]} 0 <= c && c < len(m.posLookup) ==> m.posLookup[c] == (hd[c] == -1 ? nil : &m.Tiles[hd[c]]))
//@ pred tableOK(m *NavMesh, cls seq int, rk seq int, nx seq int, hd seq int) = tableShape(m) && tableClass(m, cls) && tableNext(m, cls, rk, nx) && tableGaps(m, cls, rk, nx) && tableHeads(m, cls, rk, hd)
//@ pred allListed(m *NavMesh, cls seq int) = forall i int :: {cls[i]} 0 <= i && i < len(m.Tiles) ==> cls[i] != -2
//@ pred isAt(t *MeshTile, x int, y int) = t.Header != nil && t.Header.X == x && t.Header.Y == y
//@ pred isTile(t *MeshTile, x int, y int, layer int) = t.Header != nil && t.Header.X == x && t.Header.Y == y && t.Header.Layer == layer
//@ pred onePerPlace(m *NavMesh) = forall i int, j int :: {m.Tiles[i].Header, m.Tiles[j].Header} 0 <= i && i < j && j < len(m.Tiles) && m.Tiles[i].Header != nil && m.Tiles[j].Header != nil ==> m.Tiles[i].Header.X != m.Tiles[j].Header.X || m.Tiles[i].Header.Y != m.Tiles[j].Header.Y || m.Tiles[i].Header.Layer != m.Tiles[j].Header.Layer

//@ func detour.computeTileHash
//@ property C04
//@ function
//@ overflow wrap
//@ requires 0 <= mask
//@ ensures 0 <= result && result <= mask
//@ modifies nothing

//@ func detour.(*NavMesh).TileAt
//@ property C04
//@ gparam cls seq int
//@ gparam rk seq int
//@ gparam nx seq int
//@ gparam hd seq int
//@ requires tableOK(m, cls, rk, nx, hd)
//@ ghost at int = -1
//@ ensures result == nil ==> (forall i int :: {m.Tiles[i].Header} 0 <= i && i < len(m.Tiles) && cls[i] != -2 ==> !isTile(&m.Tiles[i], x, y, layer))
//@ ensures result != nil ==> 0 <= at && at < len(m.Tiles) && result == &m.Tiles[at] && isTile(&m.Tiles[at], x, y, layer)
//@ modifies nothing
//@ loop 1
//@ init at = hd[h]
//@ step at = nx[at]
//@ invariant h == computeTileHash(x, y, m.TileLUTMask) && tile == (at == -1 ? nil : &m.Tiles[at]) && -1 <= at && at < len(m.Tiles) && (at != -1 ==> cls[at] == h)
//@ invariant forall i int :: {cls[i]} 0 <= i && i < len(m.Tiles) && cls[i] == h && (at == -1 || rk[i] > rk[at]) ==> !isTile(&m.Tiles[i], x, y, layer)
//@ decreases at == -1 ? 0 : 1 + rk[at]

//@ func detour.(*NavMesh).TilesAt
//@ property C04
//@ gparam cls seq int
//@ gparam rk seq int
//@ gparam nx seq int
//@ gparam hd seq int
//@ requires tableOK(m, cls, rk, nx, hd)
//@ requires maxTiles <= len(tiles) && root(tiles) != root(m.posLookup)
//@ ghost at int = -1
//@ ghost pos seq int
//@ ensures 0 <= result && (0 <= maxTiles ==> result <= maxTiles)
//@ ensures forall k int :: {pos[k]} {tiles[k]} 0 <= k && k < result ==> 0 <= pos[k] && pos[k] < len(m.Tiles) && tiles[k] == &m.Tiles[pos[k]] && isAt(&m.Tiles[pos[k]], x, y)
//@ ensures forall a int, b int :: {pos[a], pos[b]} 0 <= a && a < b && b < result ==> pos[a] != pos[b]
//@ ensures result < maxTiles ==> (forall i int :: {m.Tiles[i].Header} 0 <= i && i < len(m.Tiles) && cls[i] != -2 && isAt(&m.Tiles[i], x, y) ==> (exists k int :: {pos[k]} 0 <= k && k < result && pos[k] == i))
//@ ensures forall k int :: {tiles[k]} 0 <= k && k < len(tiles) && k >= result ==> tiles[k] == old(tiles[k])
//@ modifies tiles[*]
//@ loop 1
//@ init at = hd[h]
//@ step pos = update(pos, n-1, n > iter(n) ? at : pos[n-1])
//@ step at = nx[at]
//@ invariant h == computeTileHash(x, y, m.TileLUTMask) && tile == (at == -1 ? nil : &m.Tiles[at]) && -1 <= at && at < len(m.Tiles) && (at != -1 ==> cls[at] == h)
//@ invariant 0 <= n && (0 <= maxTiles ==> n <= maxTiles) && (n > 0 ==> n <= maxTiles)
//@ invariant forall k int :: {pos[k]} {tiles[k]} 0 <= k && k < n ==> 0 <= pos[k] && pos[k] < len(m.Tiles) && tiles[k] == &m.Tiles[pos[k]] && isAt(&m.Tiles[pos[k]], x, y) && cls[pos[k]] == h && (at == -1 || rk[pos[k]] > rk[at])
//@ invariant forall a int, b int :: {pos[a], pos[b]} 0 <= a && a < b && b < n ==> rk[pos[a]] > rk[pos[b]]
//@ invariant n < maxTiles ==> (forall i int :: {cls[i]} 0 <= i && i < len(m.Tiles) && cls[i] == h && (at == -1 || rk[i] > rk[at]) && isAt(&m.Tiles[i], x, y) ==> (exists k int :: {pos[k]} 0 <= k && k < n && pos[k] == i))
//@ invariant forall k int :: {tiles[k]} 0 <= k && k < len(tiles) && k >= n ==> tiles[k] == before(tiles[k])
//@ decreases at == -1 ? 0 : 1 + rk[at]

// ---- what linking a tile may touch (contracts without preconditions: they
// say only which memory the linking code can change when it returns) ----
//@ func detour.(*NavMesh).TileAndPolyByRefUnsafe#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.(*NavMesh).DecodePolyID
//@ requires tile != nil && poly != nil
//@ modifies *tile, *poly

//@ func detour.(*NavMesh).closestPointOnPoly#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.(*Poly).Type, detour.distancePtPolyEdgesSqr
//@ requires m != nil
//@ noterm
//@ modifies heapof(float32), *posOverPoly

//@ func detour.(*NavMesh).queryPolygonsInTile#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.(*Poly).Type
//@ requires m != nil
//@ noterm
//@ modifies polys[*]

//@ func detour.(*NavMesh).FindNearestPolyInTile#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ requires m != nil
//@ noterm
//@ modifies heapof(float32)

//@ func detour.(*NavMesh).baseOffMeshLinks#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.allocLink
//@ requires m != nil
//@ noterm
//@ modifies heapof(float32), Poly.FirstLink, Link.Ref, Link.Next, Link.Edge, Link.Side, Link.BMin, Link.BMax, MeshTile.LinksFreeList

//@ func detour.(*NavMesh).connectIntLinks#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.allocLink, detour.(*Poly).Type
//@ requires m != nil
//@ noterm
//@ modifies Poly.FirstLink, Link.Ref, Link.Next, Link.Edge, Link.Side, Link.BMin, Link.BMax, MeshTile.LinksFreeList

//@ func detour.(*NavMesh).connectExtOffMeshLinks#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.allocLink
//@ requires m != nil
//@ noterm
//@ modifies heapof(float32), Poly.FirstLink, Link.Ref, Link.Next, Link.Edge, Link.Side, Link.BMin, Link.BMax, MeshTile.LinksFreeList

//@ func detour.(*NavMesh).findConnectingPolys#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ requires m != nil
//@ noterm
//@ modifies con[*], conarea[*]

//@ func detour.(*NavMesh).connectExtLinks#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.allocLink
//@ requires m != nil
//@ noterm
//@ modifies heapof(float32), Poly.FirstLink, Link.Ref, Link.Next, Link.Edge, Link.Side, Link.BMin, Link.BMax, MeshTile.LinksFreeList

//@ func detour.(*NavMesh).unconnectLinks#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ inline detour.freeLink
//@ requires m != nil
//@ noterm
//@ modifies Poly.FirstLink, Link.Next, MeshTile.LinksFreeList

//@ func detour.(*NavMesh).TileRef#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ requires m != nil
//@ modifies nothing

//@ func detour.(*NavMesh).polyRefBase#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ requires m != nil
//@ modifies nothing

//@ func detour.(*MeshTile).unserialize#frame
//@ property C04
//@ maypanic
//@ overflow wrap
//@ requires s != nil && hdr != nil
//@ ensures len(s.Links) == hdr.MaxLinkCount && len(s.Polys) == hdr.PolyCount
//@ ensures len(s.DetailMeshes) == hdr.DetailMeshCount && len(s.BvTree) == hdr.BvNodeCount && len(s.OffMeshCons) == hdr.OffMeshConCount
//@ ensures 0 <= hdr.VertCount && 12*int(hdr.VertCount) < 2147483648 ==> len(s.Verts) == 3*hdr.VertCount
//@ ensures 0 <= hdr.DetailVertCount && 12*int(hdr.DetailVertCount) < 2147483648 ==> len(s.DetailVerts) == 3*hdr.DetailVertCount
//@ ensures 0 <= hdr.DetailTriCount && 4*int(hdr.DetailTriCount) < 2147483648 ==> len(s.DetailTris) == 4*hdr.DetailTriCount
//@ modifies s.Verts, s.Polys, s.Links, s.DetailMeshes, s.DetailVerts, s.DetailTris, s.BvTree, s.OffMeshCons

//@ func detour.(*NavMesh).neighbourTilesAt
//@ property C04
//@ overflow wrap
//@ gparam cls seq int
//@ gparam rk seq int
//@ gparam nx seq int
//@ gparam hd seq int
//@ requires tableOK(m, cls, rk, nx, hd) && maxTiles <= len(tiles) && root(tiles) != root(m.posLookup)
//@ ensures 0 <= result && (0 <= maxTiles ==> result <= maxTiles)
//@ modifies tiles[*]

// references of the slots
//@ pred saltsOK(m *NavMesh) = splitOK(m) && m.saltBits >= 2 && (forall i int :: {m.Tiles[i].Salt} 0 <= i && i < len(m.Tiles) ==> 1 <= m.Tiles[i].Salt && inBits(m.Tiles[i].Salt, m.saltBits) && i < int(1) << m.tileBits)
//@ pred refOfSlot(m *NavMesh, r TileRef, s int) = refTile(m, PolyRef(r)) == s && refSalt(m, PolyRef(r)) == m.Tiles[s].Salt && refPoly(m, PolyRef(r)) == 0

//@ func detour.(*NavMesh).TileRefAt
//@ property C04
//@ gparam cls seq int
//@ gparam rk seq int
//@ gparam nx seq int
//@ gparam hd seq int
//@ requires tableOK(m, cls, rk, nx, hd) && allListed(m, cls) && saltsOK(m)
//@ ghost at int = -1
//@ hook TileRef before ghost arg:k = at
//@ ensures at == -1 ==> result == 0 && (forall i int :: {m.Tiles[i].Header} 0 <= i && i < len(m.Tiles) ==> !isTile(&m.Tiles[i], x, y, layer))
//@ ensures at != -1 ==> 0 <= at && at < len(m.Tiles) && refOfSlot(m, result, at) && isTile(&m.Tiles[at], x, y, layer)
//@ modifies nothing
//@ loop 1
//@ init at = hd[h]
//@ step at = nx[at]
//@ invariant h == computeTileHash(x, y, m.TileLUTMask) && tile == (at == -1 ? nil : &m.Tiles[at]) && -1 <= at && at < len(m.Tiles) && (at != -1 ==> cls[at] == h)
//@ invariant forall i int :: {cls[i]} 0 <= i && i < len(m.Tiles) && cls[i] == h && (at == -1 || rk[i] > rk[at]) ==> !isTile(&m.Tiles[i], x, y, layer)
//@ decreases at == -1 ? 0 : 1 + rk[at]

//@ fn dataFits(data []uint8) bool = 0 <= rdI32(data, 24) && 0 <= rdI32(data, 28) && 0 <= rdI32(data, 32) && 0 <= rdI32(data, 36) && 0 <= rdI32(data, 40) && 0 <= rdI32(data, 44) && 0 <= rdI32(data, 48) && 0 <= rdI32(data, 52) && 100 + 32*rdI32(data, 24) + 12*rdI32(data, 28) + 12*rdI32(data, 32) + 12*rdI32(data, 36) + 12*rdI32(data, 40) + 4*rdI32(data, 44) + 16*rdI32(data, 48) + 36*rdI32(data, 52) <= len(data)
//@ pred sameTable(m *NavMesh) = m.nextFree == old(m.nextFree) && (forall i int :: {m.Tiles[i].Next} 0 <= i && i < len(m.Tiles) ==> m.Tiles[i].Next == old(m.Tiles[i].Next)) && (forall i int :: {m.Tiles[i].Header} 0 <= i && i < len(m.Tiles) ==> m.Tiles[i].Header == old(m.Tiles[i].Header)) && (forall i int :: {m.Tiles[i].Salt} 0 <= i && i < len(m.Tiles) ==> m.Tiles[i].Salt == old(m.Tiles[i].Salt)) && (forall i int :: {m.Tiles[i].DataSize} 0 <= i && i < len(m.Tiles) ==> m.Tiles[i].DataSize == old(m.Tiles[i].DataSize)) && (forall c int :: {m.posLookup[c]} 0 <= c && c < len(m.posLookup) ==> m.posLookup[c] == old(m.posLookup[c]))
//@ pred othersSame(m *NavMesh, s int) = (forall i int :: {m.Tiles[i].Header} 0 <= i && i < len(m.Tiles) && i != s ==> m.Tiles[i].Header == old(m.Tiles[i].Header)) && (forall i int :: {m.Tiles[i].Salt} 0 <= i && i < len(m.Tiles) && i != s ==> m.Tiles[i].Salt == old(m.Tiles[i].Salt)) && (forall i int :: {m.Tiles[i].DataSize} 0 <= i && i < len(m.Tiles) && i != s ==> m.Tiles[i].DataSize == old(m.Tiles[i].DataSize))

//@ func detour.(*NavMesh).AddTile
//@ property C04
//@ variant frame -detour.(*NavMesh).TileRef -detour.(*NavMesh).TileAt -detour.(*NavMesh).TilesAt -detour.(*NavMesh).neighbourTilesAt
//@ gparam cls seq int
//@ gparam rk seq int
//@ gparam nx seq int
//@ gparam hd seq int
//@ requires tableOK(m, cls, rk, nx, hd) && allListed(m, cls) && onePerPlace(m) && saltsOK(m) && len(data) < 2147483648
//@ requires lastRef == 0 || 1 <= refSalt(m, PolyRef(lastRef))
//@ ghost slot int = lastRef == 0 ? hd[-1] : int(refTile(m, PolyRef(lastRef)))
//@ ghost at int = -1
//@ ghost pv int = -1
//@ ghost cls2 seq int = cls
//@ ghost rk2 seq int = rk
//@ ghost nx2 seq int = nx
//@ ghost hd2 seq int = hd
//@ let wellFormed = len(data) >= 100 && rdI32(data, 0) == navMeshMagic && rdI32(data, 4) == navMeshVersion
//@ ensures result0 == Success || StatusFailed(result0)
//@ ensures result0 != Success ==> sameTable(m) && result1 == 0
//@ ensures !wellFormed ==> result0 != Success
//@ ensures forall i int :: {m.Tiles[i].Header} 0 <= i && i < len(m.Tiles) && old(isTile(&m.Tiles[i], rdI32(data, 8), rdI32(data, 12), rdI32(data, 16))) ==> result0 != Success
//@ ensures result0 == Success ==> 0 <= slot && slot < len(m.Tiles) && old(m.Tiles[slot].Header) == nil && (lastRef != 0 ==> slot == refTile(m, PolyRef(lastRef)))
//@ ensures result0 == Success ==> isTile(&m.Tiles[slot], rdI32(data, 8), rdI32(data, 12), rdI32(data, 16)) && m.Tiles[slot].DataSize == len(data)
//@ ensures result0 == Success ==> refOfSlot(m, result1, slot) && (lastRef == 0 ? m.Tiles[slot].Salt == old(m.Tiles[slot].Salt) : m.Tiles[slot].Salt == refSalt(m, PolyRef(lastRef)))
//@ ensures result0 == Success ==> othersSame(m, slot) && tableOK(m, cls2, rk2, nx2, hd2) && allListed(m, cls2) && onePerPlace(m) && saltsOK(m)
//@ ensures wellFormed && dataFits(data) && int(rdI32(data, 24)) <= int(1) << m.polyBits && (forall i int :: {m.Tiles[i].Header} 0 <= i && i < len(m.Tiles) ==> !old(isTile(&m.Tiles[i], rdI32(data, 8), rdI32(data, 12), rdI32(data, 16)))) && (lastRef == 0 ? (exists i int :: {cls[i]} 0 <= i && i < len(m.Tiles) && cls[i] == -1) : 0 <= slot && slot < len(m.Tiles) && cls[slot] == -1) ==> result0 == Success
//@ ensures result0 == Success ==> int(rdI32(data, 24)) <= int(1) << m.polyBits
//@ modifies m.nextFree, m.posLookup[*], m.Tiles[*], MeshTile.LinksFreeList, heapof(float32), Poly.FirstLink, Link.Ref, Link.Next, Link.Edge, Link.Side, Link.BMin, Link.BMax
//@ loop 1
//@ init at = hd[-1]
//@ step pv = at
//@ step at = nx[at]
//@ invariant tile == (at == -1 ? nil : &m.Tiles[at]) && -1 <= at && at < len(m.Tiles) && (at != -1 ==> cls[at] == -1) && slot == tileIndex && 0 <= slot && slot < len(m.Tiles)
//@ invariant prev == (pv == -1 ? nil : &m.Tiles[pv]) && -1 <= pv && pv < len(m.Tiles) && (pv == -1 ? at == hd[-1] : cls[pv] == -1 && nx[pv] == at)
//@ invariant forall i int :: {cls[i]} 0 <= i && i < len(m.Tiles) && cls[i] == -1 && (at == -1 || rk[i] > rk[at]) ==> i != slot
//@ decreases at == -1 ? 0 : 1 + rk[at]
//@ loop 3
//@ invariant tableHeads(m, cls2, rk2, hd2) && root(neis) != root(m.posLookup)
//@ loop 4
//@ keep
//@ invariant tableHeads(m, cls2, rk2, hd2) && root(neis) != root(m.posLookup)
//@ loop 5
//@ invariant tableHeads(m, cls2, rk2, hd2) && root(neis) != root(m.posLookup)
//@ hook unserialize#2 before ghost cls2 = update(cls, slot, h)
//@ hook unserialize#2 before ghost rk2 = update(rk, slot, hd[h] == -1 ? 0 : 1 + rk[hd[h]])
//@ hook unserialize#2 before ghost nx2 = update(pv == -1 ? nx : update(nx, pv, nx[slot]), slot, hd[h])
//@ hook unserialize#2 before ghost hd2 = update(pv == -1 ? update(hd, -1, nx[slot]) : hd, h, slot)
//@ hook connectIntLinks before freeze cls2, rk2, nx2, hd2, detour.MeshTile.Next, detour.MeshTile.Header, detour.MeshTile.Salt, *detour.MeshTile, detour.NavMesh.nextFree
//@ hook connectIntLinks before assert tableShape(m)
//@ hook connectIntLinks before assert tableClass(m, cls2)
//@ hook connectIntLinks before assert tableNext(m, cls2, rk2, nx2)
//@ hook connectIntLinks before assert tableGaps(m, cls2, rk2, nx2)
//@ hook connectIntLinks before assert tableHeads(m, cls2, rk2, hd2)
//@ hook connectIntLinks before assert onePerPlace(m) && allListed(m, cls2) && saltsOK(m)
//@ hook baseOffMeshLinks before assert tableShape(m)
//@ hook baseOffMeshLinks before assert tableClass(m, cls2)
//@ hook baseOffMeshLinks before assert tableNext(m, cls2, rk2, nx2)
//@ hook baseOffMeshLinks before assert tableGaps(m, cls2, rk2, nx2)
//@ hook baseOffMeshLinks before assert tableHeads(m, cls2, rk2, hd2)
//@ hook TilesAt before assert tableShape(m)
//@ hook TilesAt before assert tableClass(m, cls2)
//@ hook TilesAt before assert tableNext(m, cls2, rk2, nx2)
//@ hook TilesAt before assert tableGaps(m, cls2, rk2, nx2)
//@ hook TilesAt before assert tableHeads(m, cls2, rk2, hd2)
//@ hook TilesAt before ghost arg:cls = cls2
//@ hook TilesAt before ghost arg:rk = rk2
//@ hook TilesAt before ghost arg:nx = nx2
//@ hook TilesAt before ghost arg:hd = hd2
//@ hook neighbourTilesAt before ghost arg:cls = cls2
//@ hook neighbourTilesAt before ghost arg:rk = rk2
//@ hook neighbourTilesAt before ghost arg:nx = nx2
//@ hook neighbourTilesAt before ghost arg:hd = hd2
//@ hook TileRef before ghost arg:k = slot

//@ func detour.(*NavMesh).RemoveTile
//@ property C04
//@ variant frame -detour.(*NavMesh).TileRef -detour.(*NavMesh).TileAt -detour.(*NavMesh).TilesAt -detour.(*NavMesh).neighbourTilesAt
//@ gparam cls seq int
//@ gparam rk seq int
//@ gparam nx seq int
//@ gparam hd seq int
//@ requires tableOK(m, cls, rk, nx, hd) && allListed(m, cls) && onePerPlace(m) && saltsOK(m)
//@ ghost slot int = int(refTile(m, PolyRef(ref)))
//@ ghost at int = -1
//@ ghost pv int = -1
//@ ghost cls1 seq int = cls
//@ ghost nx1 seq int = nx
//@ ghost hd1 seq int = hd
//@ ensures st == Success <==> ref != 0 && slot < len(m.Tiles) && old(m.Tiles[slot].Salt) == refSalt(m, PolyRef(ref)) && old(m.Tiles[slot].Header) != nil
//@ ensures st == Success || st == Failure|InvalidParam
//@ ensures st != Success ==> sameTable(m) && len(data) == 0
//@ ensures st == Success ==> len(data) == len(old(m.Tiles[slot].Data)) && (len(data) > 0 ==> arr(data) == arr(old(m.Tiles[slot].Data)) && off(data) == off(old(m.Tiles[slot].Data)))
//@ ensures st == Success ==> m.Tiles[slot].Header == nil && m.Tiles[slot].Salt != 0 && m.Tiles[slot].Salt != old(m.Tiles[slot].Salt) && len(m.Tiles[slot].Polys) == 0 && len(m.Tiles[slot].Links) == 0 && m.Tiles[slot].DataSize == 0
//@ ensures st == Success ==> othersSame(m, slot)
//@ ensures st == Success ==> tableOK(m, cls1, rk1, nx1, hd1) && allListed(m, cls1) && onePerPlace(m) && saltsOK(m)
//@ ghost rk1 seq int = rk
//@ modifies m.nextFree, m.posLookup[*], m.Tiles[*], MeshTile.LinksFreeList, Poly.FirstLink, Link.Next
//@ loop 1
//@ init at = hd[h]
//@ step pv = at
//@ step at = nx[at]
//@ invariant h == cls[slot] && 0 <= h && tile == &m.Tiles[slot] && 0 <= slot && slot < len(m.Tiles)
//@ invariant cur == (at == -1 ? nil : &m.Tiles[at]) && -1 <= at && at < len(m.Tiles) && (at != -1 ==> cls[at] == h)
//@ invariant prev == (pv == -1 ? nil : &m.Tiles[pv]) && -1 <= pv && pv < len(m.Tiles) && (pv == -1 ? at == hd[h] : cls[pv] == h && nx[pv] == at)
//@ invariant forall i int :: {cls[i]} 0 <= i && i < len(m.Tiles) && cls[i] == h && (at == -1 || rk[i] > rk[at]) ==> i != slot
//@ decreases at == -1 ? 0 : 1 + rk[at]
//@ hook TilesAt before assert at == slot
//@ hook TilesAt before ghost cls1 = update(cls, slot, -2)
//@ hook TilesAt before ghost nx1 = pv == -1 ? nx : update(nx, pv, nx[slot])
//@ hook TilesAt before ghost hd1 = pv == -1 ? update(hd, h, nx[slot]) : hd
//@ hook TilesAt before freeze cls1, nx1, hd1, detour.MeshTile.Next, *detour.MeshTile
//@ hook TilesAt before assert tableShape(m)
//@ hook TilesAt before assert tableClass(m, cls1)
//@ hook TilesAt before assert tableNext(m, cls1, rk, nx1)
//@ hook TilesAt before assert tableGaps(m, cls1, rk, nx1)
//@ hook TilesAt before assert tableHeads(m, cls1, rk, hd1)
//@ hook TilesAt before ghost arg:cls = cls1
//@ hook TilesAt before ghost arg:nx = nx1
//@ hook TilesAt before ghost arg:hd = hd1
//@ loop 2
//@ invariant tableHeads(m, cls1, rk, hd1) && root(&neis) != root(m.posLookup)
//@ loop 3
//@ keep
//@ invariant tableHeads(m, cls1, rk, hd1) && root(&neis) != root(m.posLookup)
//@ loop 4
//@ invariant tableHeads(m, cls1, rk, hd1) && root(&neis) != root(m.posLookup)
//@ hook $exit before ghost cls1 = update(cls1, slot, -1)
//@ hook $exit before ghost rk1 = update(rk, slot, hd1[-1] == -1 ? 0 : 1 + rk[hd1[-1]])
//@ hook $exit before ghost nx1 = update(nx1, slot, hd1[-1])
//@ hook $exit before ghost hd1 = update(hd1, -1, slot)
//@ hook $exit before freeze cls1, rk1, nx1, hd1, detour.MeshTile.Next, detour.MeshTile.Header, detour.MeshTile.Salt, *detour.MeshTile, detour.NavMesh.nextFree
//@ hook $exit before assert st == Success ==> tableShape(m)
//@ hook $exit before assert st == Success ==> tableClass(m, cls1)
//@ hook $exit before assert st == Success ==> tableNext(m, cls1, rk1, nx1)
//@ hook $exit before assert st == Success ==> tableGaps(m, cls1, rk1, nx1)
//@ hook $exit before assert st == Success ==> tableHeads(m, cls1, rk1, hd1)
//@ hook $exit before assert st == Success ==> onePerPlace(m) && allListed(m, cls1)
//@ hook $exit before assert st == Success ==> saltsOK(m)

// A freshly initialised mesh has an empty table.
//@ func detour.(*NavMesh).Init#table
//@ property C04
//@ use pow2Grows
//@ requires m != nil && params != nil && len(m.Tiles) == 0
//@ ghost cls0 seq int = constseq(-1)
//@ ghost rk0 seq int
//@ ghost nx0 seq int
//@ ghost hd0 seq int
//@ hook $exit before ghost rk0 = seq(i: len(m.Tiles)-i)
//@ hook $exit before ghost nx0 = seq(i: i+1 < len(m.Tiles) ? i+1 : -1)
//@ hook $exit before ghost hd0 = seq(c: c == -1 && len(m.Tiles) > 0 ? 0 : -1)
//@ ensures result == Success ==> tableShape(m)
//@ ensures result == Success ==> tableClass(m, cls0)
//@ ensures result == Success ==> tableNext(m, cls0, rk0, nx0)
//@ ensures result == Success ==> tableGaps(m, cls0, rk0, nx0)
//@ ensures result == Success ==> tableHeads(m, cls0, rk0, hd0)
//@ ensures result == Success ==> allListed(m, cls0) && onePerPlace(m)
//@ ensures result == Success ==> m.saltBits >= 8 && (forall i int :: {m.Tiles[i].Salt} 0 <= i && i < len(m.Tiles) ==> m.Tiles[i].Salt == 1 && i < pow2(m.tileBits))
//@ modifies m.Params, m.Orig, m.TileWidth, m.TileHeight, m.MaxTiles, m.TileLUTSize, m.TileLUTMask, m.posLookup, m.nextFree, m.Tiles, m.saltBits, m.tileBits, m.polyBits
//@ loop 1
//@ invariant -1 <= i && i < len(m.Tiles)
//@ invariant m.nextFree == (i+1 < len(m.Tiles) ? &m.Tiles[i+1] : nil)
//@ invariant forall k int :: {m.Tiles[k].Salt} {m.Tiles[k].Next} i < k && k < len(m.Tiles) ==> m.Tiles[k].Salt == 1 && m.Tiles[k].Next == (k+1 < len(m.Tiles) ? &m.Tiles[k+1] : nil)
//@ invariant forall k int :: {m.Tiles[k].Header} 0 <= k && k < len(m.Tiles) ==> m.Tiles[k].Header == nil
//@ decreases i + 1
