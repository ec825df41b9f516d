//go:build verif_contracts

package contracts

// C11: bounding-volume trees and box queries. Ghost view of the builder: lx..hz
// bound polygon id; pos[id] is the position of its item; at[id] is its leaf.

//@ package detour
//@ pred bvItem(items []bvItem, k int, lx seq int, ly seq int, lz seq int, hx seq int, hy seq int, hz seq int) = items[k].BMin[0] == lx[items[k].i] && items[k].BMin[1] == ly[items[k].i] && items[k].BMin[2] == lz[items[k].i] && items[k].BMax[0] == hx[items[k].i] && items[k].BMax[1] == hy[items[k].i] && items[k].BMax[2] == hz[items[k].i]
//@ pred bvItems(items []bvItem, a int, b int, nt int, pos seq int, lx seq int, ly seq int, lz seq int, hx seq int, hy seq int, hz seq int) = forall k int :: {items[k].i} a <= k && k < b ==> 0 <= items[k].i && items[k].i < nt && pos[items[k].i] == k && bvItem(items, k, lx, ly, lz, hx, hy, hz)
//@ pred bvHolds(items []bvItem, a int, b int, nt int, pos seq int) = forall t int :: {pos[t]} 0 <= t && t < nt && a <= pos[t] && pos[t] < b ==> items[pos[t]].i == t
//@ pred bvLeaf(nodes []BvNode, j int, lx seq int, ly seq int, lz seq int, hx seq int, hy seq int, hz seq int) = nodes[j].BMin[0] == lx[nodes[j].I] && nodes[j].BMin[1] == ly[nodes[j].I] && nodes[j].BMin[2] == lz[nodes[j].I] && nodes[j].BMax[0] == hx[nodes[j].I] && nodes[j].BMax[1] == hy[nodes[j].I] && nodes[j].BMax[2] == hz[nodes[j].I]
//@ pred bvItemIn(items []bvItem, k int, x0 int, y0 int, z0 int, x1 int, y1 int, z1 int) = x0 <= items[k].BMin[0] && y0 <= items[k].BMin[1] && z0 <= items[k].BMin[2] && items[k].BMax[0] <= x1 && items[k].BMax[1] <= y1 && items[k].BMax[2] <= z1
//@ pred bvNodeIn(nodes []BvNode, j int, x0 int, y0 int, z0 int, x1 int, y1 int, z1 int) = x0 <= nodes[j].BMin[0] && y0 <= nodes[j].BMin[1] && z0 <= nodes[j].BMin[2] && nodes[j].BMax[0] <= x1 && nodes[j].BMax[1] <= y1 && nodes[j].BMax[2] <= z1
//@ pred bvInside(nodes []BvNode, k int, j int) = bvNodeIn(nodes, j, nodes[k].BMin[0], nodes[k].BMin[1], nodes[k].BMin[2], nodes[k].BMax[0], nodes[k].BMax[1], nodes[k].BMax[2])
//@ pred bvTreeOK(nodes []BvNode, n int) = 0 <= n && n <= len(nodes) && (forall k int :: {nodes[k].I} 0 <= k && k < n && nodes[k].I < 0 ==> k - nodes[k].I <= n) && (forall k int, j int :: {nodes[k].I, nodes[j].I} 0 <= k && k < j && j < n && nodes[k].I < 0 && j < k - nodes[k].I ==> bvInside(nodes, k, j))

//@ func detour.OverlapQuantBounds
//@ property C11
//@ requires len(amin) >= 3 && len(amax) >= 3 && len(bmin) >= 3 && len(bmax) >= 3
//@ ensures result <==> (amin[0] <= bmax[0] && bmin[0] <= amax[0] && amin[1] <= bmax[1] && bmin[1] <= amax[1] && amin[2] <= bmax[2] && bmin[2] <= amax[2])
//@ modifies nothing

//@ func detour.OverlapBounds
//@ property C11
//@ floats fp
//@ requires len(amin) >= 3 && len(amax) >= 3 && len(bmin) >= 3 && len(bmax) >= 3
//@ ensures result <==> !(fgt3(amin, bmax) || fgt3(bmin, amax))
//@ modifies nothing
//@ pred fgt3(a []float32, b []float32) = a[0] > b[0] || a[1] > b[1] || a[2] > b[2]

//@ func detour.calcExtends
//@ property C11
//@ requires 0 <= imin && imin < imax && imax <= len(items) && len(bmin) >= 3 && len(bmax) >= 3 && arr(bmin) != arr(bmax) && root(bmin) != root(items) && root(bmax) != root(items)
//@ ensures forall k int :: {items[k].i} imin <= k && k < imax ==> bvItemIn(items, k, bmin[0], bmin[1], bmin[2], bmax[0], bmax[1], bmax[2])
//@ ghost w0 int = imin
//@ ghost w1 int = imin
//@ ghost w2 int = imin
//@ ghost w3 int = imin
//@ ghost w4 int = imin
//@ ghost w5 int = imin
//@ ensures imin <= w0 && w0 < imax && bmin[0] == items[w0].BMin[0] && imin <= w1 && w1 < imax && bmin[1] == items[w1].BMin[1] && imin <= w2 && w2 < imax && bmin[2] == items[w2].BMin[2]
//@ ensures imin <= w3 && w3 < imax && bmax[0] == items[w3].BMax[0] && imin <= w4 && w4 < imax && bmax[1] == items[w4].BMax[1] && imin <= w5 && w5 < imax && bmax[2] == items[w5].BMax[2]
//@ modifies bmin[*], bmax[*]
//@ loop 1
//@ invariant imin + 1 <= i && i <= imax
//@ invariant imin <= w0 && w0 < i && bmin[0] == items[w0].BMin[0] && imin <= w1 && w1 < i && bmin[1] == items[w1].BMin[1] && imin <= w2 && w2 < i && bmin[2] == items[w2].BMin[2]
//@ invariant imin <= w3 && w3 < i && bmax[0] == items[w3].BMax[0] && imin <= w4 && w4 < i && bmax[1] == items[w4].BMax[1] && imin <= w5 && w5 < i && bmax[2] == items[w5].BMax[2]
//@ invariant forall k int :: {items[k].i} imin <= k && k < i ==> bvItemIn(items, k, bmin[0], bmin[1], bmin[2], bmax[0], bmax[1], bmax[2])
//@ step w0 = it.BMin[0] < iter(bmin[0]) ? i : w0
//@ step w1 = it.BMin[1] < iter(bmin[1]) ? i : w1
//@ step w2 = it.BMin[2] < iter(bmin[2]) ? i : w2
//@ step w3 = it.BMax[0] > iter(bmax[0]) ? i : w3
//@ step w4 = it.BMax[1] > iter(bmax[1]) ? i : w4
//@ step w5 = it.BMax[2] > iter(bmax[2]) ? i : w5
//@ decreases imax - i

//@ func detour.longestAxis
//@ property C11
//@ ensures result == 0 || result == 1 || result == 2
//@ modifies nothing

//@ func detour.subdivide
//@ timeout 15
//@ paths
//@ property C11
//@ gparam nt int
//@ gparam pos seq int
//@ gparam lx seq int
//@ gparam ly seq int
//@ gparam lz seq int
//@ gparam hx seq int
//@ gparam hy seq int
//@ gparam hz seq int
//@ gparam at seq int
//@ gparam x0 int
//@ gparam y0 int
//@ gparam z0 int
//@ gparam x1 int
//@ gparam y1 int
//@ gparam z1 int
//@ requires 0 <= imin && imin < imax && imax <= len(items) && nt == len(items) && nt <= 536870911
//@ requires bvItems(items, imin, imax, nt, pos, lx, ly, lz, hx, hy, hz)
//@ requires bvHolds(items, imin, imax, nt, pos)
//@ requires forall k int :: {items[k].i} imin <= k && k < imax ==> bvItemIn(items, k, x0, y0, z0, x1, y1, z1)
//@ requires curNode != nil && 0 <= *curNode && *curNode + 2*(imax-imin) - 1 <= len(nodes) && len(nodes) <= 1073741823
//@ requires root(nodes) != root(items) && root(curNode) != root(nodes) && root(curNode) != root(items)
//@ ghost npos seq int = pos
//@ ghost nat seq int = at
// a tree over n polygons has 2n-1 nodes
//@ ensures *curNode == old(*curNode) + 2*(imax-imin) - 1
//@ ensures bvItems(items, imin, imax, nt, npos, lx, ly, lz, hx, hy, hz)
//@ ensures bvHolds(items, imin, imax, nt, npos)
//@ ensures forall t int :: {npos[t]} imin <= pos[t] && pos[t] < imax ? imin <= npos[t] && npos[t] < imax : npos[t] == pos[t]
//@ ensures forall k int :: {items[k].i} imin <= k && k < imax ==> bvItemIn(items, k, x0, y0, z0, x1, y1, z1)
//@ ensures forall k int :: {items[k].i} 0 <= k && k < len(items) && (k < imin || imax <= k) ==> items[k].i == old(items[k].i) && items[k].BMin[0] == old(items[k].BMin[0]) && items[k].BMin[1] == old(items[k].BMin[1]) && items[k].BMin[2] == old(items[k].BMin[2]) && items[k].BMax[0] == old(items[k].BMax[0]) && items[k].BMax[1] == old(items[k].BMax[1]) && items[k].BMax[2] == old(items[k].BMax[2])
//@ ensures forall j int :: {nodes[j].I} 0 <= j && j < len(nodes) && (j < old(*curNode) || *curNode <= j) ==> nodes[j].I == old(nodes[j].I) && nodes[j].BMin[0] == old(nodes[j].BMin[0]) && nodes[j].BMin[1] == old(nodes[j].BMin[1]) && nodes[j].BMin[2] == old(nodes[j].BMin[2]) && nodes[j].BMax[0] == old(nodes[j].BMax[0]) && nodes[j].BMax[1] == old(nodes[j].BMax[1]) && nodes[j].BMax[2] == old(nodes[j].BMax[2])
// the node written first covers exactly the nodes written
//@ ensures imax - imin == 1 ? nodes[old(*curNode)].I >= 0 : old(*curNode) - nodes[old(*curNode)].I == *curNode
//@ ensures forall j int :: {nodes[j].I} old(*curNode) <= j && j < *curNode ==> bvNodeIn(nodes, j, x0, y0, z0, x1, y1, z1) && j - nodes[j].I <= *curNode
//@ ensures forall k int, j int :: {nodes[k].I, nodes[j].I} old(*curNode) <= k && k < j && j < *curNode && nodes[k].I < 0 && j < k - nodes[k].I ==> bvInside(nodes, k, j)
// every polygon has one leaf, every leaf is a polygon's, with the polygon's box
//@ ensures forall t int :: {nat[t]} 0 <= t && t < nt && imin <= npos[t] && npos[t] < imax ==> old(*curNode) <= nat[t] && nat[t] < *curNode && nodes[nat[t]].I == t
//@ ensures forall t int :: {nat[t]} pos[t] < imin || imax <= pos[t] ==> nat[t] == at[t]
//@ ensures forall j int :: {nodes[j].I} old(*curNode) <= j && j < *curNode && nodes[j].I >= 0 ==> nodes[j].I < nt && imin <= npos[nodes[j].I] && npos[nodes[j].I] < imax && nat[nodes[j].I] == j && bvLeaf(nodes, j, lx, ly, lz, hx, hy, hz)
//@ modifies items[*], nodes[*], *curNode
//@ decreases imax - imin
//@ hook calcExtends after assert bvNodeIn(nodes, icur, x0, y0, z0, x1, y1, z1)
//@ hook calcExtends after assert forall k int :: {items[k].i} imin <= k && k < imax ==> bvItemIn(items, k, nodes[icur].BMin[0], nodes[icur].BMin[1], nodes[icur].BMin[2], nodes[icur].BMax[0], nodes[icur].BMax[1], nodes[icur].BMax[2])
//@ hook Slice after ghost npos = seq(t: imin <= npos[t] && npos[t] < imax ? imin + $out_inv[npos[t]-imin] : npos[t])
//@ hook Slice after assert bvItems(items, imin, imax, nt, npos, lx, ly, lz, hx, hy, hz)
//@ hook Slice after assert forall k int :: {items[k].i} imin <= k && k < imax ==> bvItemIn(items, k, nodes[icur].BMin[0], nodes[icur].BMin[1], nodes[icur].BMin[2], nodes[icur].BMax[0], nodes[icur].BMax[1], nodes[icur].BMax[2])
//@ hook Slice after assert forall t int :: {npos[t]} imin <= pos[t] && pos[t] < imax ? imin <= npos[t] && npos[t] < imax : npos[t] == pos[t]
//@ hook Slice after assert bvHolds(items, imin, imax, nt, npos)
//@ hook subdivide before ghost arg:pos = npos
//@ hook subdivide before ghost arg:at = nat
//@ hook subdivide before ghost arg:x0 = nodes[icur].BMin[0]
//@ hook subdivide before ghost arg:y0 = nodes[icur].BMin[1]
//@ hook subdivide before ghost arg:z0 = nodes[icur].BMin[2]
//@ hook subdivide before ghost arg:x1 = nodes[icur].BMax[0]
//@ hook subdivide before ghost arg:y1 = nodes[icur].BMax[1]
//@ hook subdivide before ghost arg:z1 = nodes[icur].BMax[2]
//@ hook subdivide after ghost npos = $out_npos
//@ hook subdivide after ghost nat = $out_nat
//@ hook subdivide after assert forall t int :: {npos[t]} imin <= pos[t] && pos[t] < imax ? imin <= npos[t] && npos[t] < imax : npos[t] == pos[t]
//@ hook subdivide after assert bvHolds(items, imin, isplit, nt, npos) && bvHolds(items, isplit, imax, nt, npos)
//@ hook subdivide after assert bvItems(items, imin, isplit, nt, npos, lx, ly, lz, hx, hy, hz)
//@ hook subdivide after assert bvItems(items, isplit, imax, nt, npos, lx, ly, lz, hx, hy, hz)
//@ hook subdivide after assert forall k int :: {items[k].i} 0 <= k && k < len(items) && (k < imin || imax <= k) ==> items[k].i == old(items[k].i) && items[k].BMin[0] == old(items[k].BMin[0]) && items[k].BMin[1] == old(items[k].BMin[1]) && items[k].BMin[2] == old(items[k].BMin[2]) && items[k].BMax[0] == old(items[k].BMax[0]) && items[k].BMax[1] == old(items[k].BMax[1]) && items[k].BMax[2] == old(items[k].BMax[2])
//@ hook subdivide after assert forall j int :: {nodes[j].I} 0 <= j && j < len(nodes) && (j < icur || *curNode <= j) ==> nodes[j].I == old(nodes[j].I) && nodes[j].BMin[0] == old(nodes[j].BMin[0]) && nodes[j].BMin[1] == old(nodes[j].BMin[1]) && nodes[j].BMin[2] == old(nodes[j].BMin[2]) && nodes[j].BMax[0] == old(nodes[j].BMax[0]) && nodes[j].BMax[1] == old(nodes[j].BMax[1]) && nodes[j].BMax[2] == old(nodes[j].BMax[2])
//@ hook subdivide after assert forall j int :: {nodes[j].I} icur < j && j < *curNode ==> bvInside(nodes, icur, j) && j - nodes[j].I <= *curNode
//@ hook subdivide after assert forall k int, j int :: {nodes[k].I, nodes[j].I} icur < k && k < j && j < *curNode && nodes[k].I < 0 && j < k - nodes[k].I ==> bvInside(nodes, k, j)
//@ hook $exit before ghost nat = imax - imin == 1 ? update(nat, items[imin].i, old(*curNode)) : nat
//@ exitassert forall k int, j int :: {nodes[k].I, nodes[j].I} old(*curNode) < k && k < j && j < *curNode && nodes[k].I < 0 && j < k - nodes[k].I ==> bvInside(nodes, k, j)
//@ exitassert forall j int :: {nodes[j].I} old(*curNode) < j && j < *curNode ==> bvInside(nodes, old(*curNode), j)

//@ func detour.OverlapQuantBounds#frame
//@ property C11
//@ maypanic
//@ modifies nothing

//@ func detour.OverlapBounds#frame
//@ property C11
//@ maypanic
//@ modifies nothing

// ---- queries ----
//@ func detour.QueryFilter.PassFilter
//@ trusted filters do not change the mesh
//@ modifies nothing

//@ func detour.polyQuery.process
//@ trusted the two implementations write only their own results (see their contracts)
//@ modifies findNearestPolyQuery.nearestDistanceSqr, findNearestPolyQuery.nearestRef, collectPolysQuery.numCollected, collectPolysQuery.overflow, heapof(float32)

//@ func detour.(*collectPolysQuery).process
//@ property C11
//@ requires q != nil && 0 <= q.numCollected && q.numCollected <= q.maxPolys && q.maxPolys <= len(q.polys) && 0 <= count && count <= len(refs) && root(refs) != root(q.polys)
//@ ensures int(q.numCollected) == min(int(old(q.numCollected)) + int(count), int(q.maxPolys))
//@ ensures q.overflow <==> old(q.overflow) || int(old(q.numCollected)) + int(count) > int(q.maxPolys)
//@ ensures forall s int :: {q.polys[s]} 0 <= s && s < len(q.polys) ==> q.polys[s] == (int(old(q.numCollected)) <= s && s < int(q.numCollected) ? refs[s - int(old(q.numCollected))] : old(q.polys[s]))
//@ modifies q.numCollected, q.overflow, q.polys[*]

//@ pred quantMeets(x0 int, y0 int, z0 int, x1 int, y1 int, z1 int, nodes []BvNode, j int) = x0 <= nodes[j].BMax[0] && nodes[j].BMin[0] <= x1 && y0 <= nodes[j].BMax[1] && nodes[j].BMin[1] <= y1 && z0 <= nodes[j].BMax[2] && nodes[j].BMin[2] <= z1
//@ fn bvEnd(nodes []BvNode) int = nodes[0].I < 0 ? 0 - int(nodes[0].I) : 1

//@ func detour.(*NavMeshQuery).queryPolygonsInTile
//@ property C11
//@ variant frame -detour.OverlapQuantBounds -detour.OverlapBounds
//@ floats uf
//@ overflow wrap
//@ requires q != nil && q.nav != nil && tile != nil && tile.Header != nil && filter != nil && query != nil && len(qmin) >= 3 && len(qmax) >= 3
//@ requires len(tile.BvTree) > 0 ==> bvTreeOK(tile.BvTree, bvEnd(tile.BvTree)) && len(tile.BvTree) <= 1073741823 && (forall j int :: {tile.BvTree[j].I} 0 <= j && j < bvEnd(tile.BvTree) && tile.BvTree[j].I >= 0 ==> tile.BvTree[j].I < len(tile.Polys))
//@ requires tile.Header.PolyCount == len(tile.Polys)
//@ requires len(tile.BvTree) == 0 ==> (forall i int, k int :: {tile.Polys[i].Verts[k]} 0 <= i && i < len(tile.Polys) && 0 <= k && k < 6 ==> 3*int(tile.Polys[i].Verts[k]) + 2 < len(tile.Verts)) && (forall i int :: {tile.Polys[i].VertCount} 0 <= i && i < len(tile.Polys) ==> tile.Polys[i].VertCount <= 6)
//@ ghost seen seq int
//@ ghost hit seq int
//@ ghost cnt int = 0
//@ ghost sent int = 0
//@ ghost b0 int = 0
//@ ghost b1 int = 0
//@ ghost b2 int = 0
//@ ghost b3 int = 0
//@ ghost b4 int = 0
//@ ghost b5 int = 0
// everything found is handed on, 32 at a time, and nothing else
//@ hook process#1 before assert cnt - sent == 32 && batchSize == 32 && (forall s int :: {polyRefs[s]} 0 <= s && s < 32 ==> polyRefs[s] == hit[sent + s])
//@ hook process#2 before assert cnt - sent == 32 && batchSize == 32 && (forall s int :: {polyRefs[s]} 0 <= s && s < 32 ==> polyRefs[s] == hit[sent + s])
//@ hook process#3 before assert cnt - sent == int(n) && (forall s int :: {polyRefs[s]} 0 <= s && s < n ==> polyRefs[s] == hit[sent + s])
//@ hook process after ghost sent = cnt
//@ ensures sent == cnt
// a leaf is considered exactly when its box meets the quantised query box
//@ ensures len(tile.BvTree) > 0 ==> (forall j int :: {seen[j]} 0 <= j && j < bvEnd(tile.BvTree) && tile.BvTree[j].I >= 0 ==> (seen[j] == 1 <==> quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, j)))
//@ modifies findNearestPolyQuery.nearestDistanceSqr, findNearestPolyQuery.nearestRef, collectPolysQuery.numCollected, collectPolysQuery.overflow, heapof(float32)
//@ hook PassFilter#1 after ghost seen = update(seen, int(nodeIdx), 1)
//@ hook PassFilter#1 after ghost hit = $res ? update(hit, cnt, int(ref)) : hit
//@ hook PassFilter#1 after ghost cnt = cnt + ($res ? 1 : 0)
//@ loop 1
//@ init seen = constseq(0)
//@ init b0 = bmin[0]
//@ init b1 = bmin[1]
//@ init b2 = bmin[2]
//@ init b3 = bmax[0]
//@ init b4 = bmax[1]
//@ init b5 = bmax[2]
//@ invariant b0 == bmin[0] && b1 == bmin[1] && b2 == bmin[2] && b3 == bmax[0] && b4 == bmax[1] && b5 == bmax[2]
//@ invariant 0 <= nodeIdx && nodeIdx <= endIdx && endIdx == bvEnd(tile.BvTree) && 0 <= n && n < 32 && batchSize == 32 && cnt == sent + int(n)
//@ invariant forall s int :: {polyRefs[s]} 0 <= s && s < n ==> polyRefs[s] == hit[sent + s]
//@ invariant forall j int :: {seen[j]} 0 <= j && j < nodeIdx && tile.BvTree[j].I >= 0 ==> (seen[j] == 1 <==> quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, j))
//@ invariant forall j int :: {seen[j]} nodeIdx <= j ==> seen[j] == 0
//@ endassert forall j int :: {tile.BvTree[j].I} iter(nodeIdx) < j && j < nodeIdx && tile.BvTree[j].I >= 0 ==> !quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, j)
//@ decreases endIdx - nodeIdx
//@ hook OverlapBounds after ghost hit = $res ? update(hit, cnt, int(ref)) : hit
//@ hook OverlapBounds after ghost cnt = cnt + ($res ? 1 : 0)
//@ loop 2
//@ invariant 0 <= i && i <= tile.Header.PolyCount && 0 <= n && n < 32 && batchSize == 32 && cnt == sent + int(n)
//@ invariant forall s int :: {polyRefs[s]} 0 <= s && s < n ==> polyRefs[s] == hit[sent + s]
//@ invariant len(bmin) == 3 && len(bmax) == 3 && fresh(bmin) && fresh(bmax)
//@ decreases tile.Header.PolyCount - i
//@ loop 3
//@ invariant 1 <= j
//@ decreases 255 - j

// The mesh's own query numbers its results from one (known finding); the
// visits and the number of results are stated here.
//@ func detour.(*NavMesh).queryPolygonsInTile
//@ property C11
//@ floats uf
//@ overflow wrap
//@ variant frame -detour.OverlapQuantBounds -detour.OverlapBounds
//@ requires m != nil && tile != nil && tile.Header != nil && len(qmin) >= 3 && len(qmax) >= 3 && 0 <= maxPolys && maxPolys < len(polys)
//@ requires len(tile.BvTree) > 0 ==> bvTreeOK(tile.BvTree, bvEnd(tile.BvTree)) && len(tile.BvTree) <= 1073741823
//@ requires tile.Header.PolyCount == len(tile.Polys)
//@ requires len(tile.BvTree) == 0 ==> (forall i int, k int :: {tile.Polys[i].Verts[k]} 0 <= i && i < len(tile.Polys) && 0 <= k && k < 6 ==> 3*int(tile.Polys[i].Verts[k]) + 2 < len(tile.Verts)) && (forall i int :: {tile.Polys[i].VertCount} 0 <= i && i < len(tile.Polys) ==> tile.Polys[i].VertCount <= 6)
//@ requires root(polys) != root(tile.BvTree)
//@ ghost seen seq int
//@ ghost hits seq int
//@ ghost cnt int = 0
//@ ghost b0 int = 0
//@ ghost b1 int = 0
//@ ghost b2 int = 0
//@ ghost b3 int = 0
//@ ghost b4 int = 0
//@ ghost b5 int = 0
//@ ensures len(tile.BvTree) > 0 ==> (int(result) == min(cnt, int(maxPolys)))
//@ ensures len(tile.BvTree) > 0 ==> (forall s int :: {hits[s]} 0 <= s && s < cnt ==> 0 <= hits[s] && hits[s] < bvEnd(tile.BvTree) && tile.BvTree[hits[s]].I >= 0 && quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, hits[s]))
//@ ensures len(tile.BvTree) > 0 ==> (forall s int, t int :: {hits[s], hits[t]} 0 <= s && s < t && t < cnt ==> hits[s] < hits[t])
//@ ensures len(tile.BvTree) > 0 ==> (forall j int :: {seen[j]} 0 <= j && j < bvEnd(tile.BvTree) && tile.BvTree[j].I >= 0 && quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, j) ==> 0 <= seen[j] && seen[j] < cnt && hits[seen[j]] == j)
//@ modifies polys[*]
//@ loop 1
//@ init b0 = bmin[0]
//@ init b1 = bmin[1]
//@ init b2 = bmin[2]
//@ init b3 = bmax[0]
//@ init b4 = bmax[1]
//@ init b5 = bmax[2]
//@ step hits = isLeafNode && overlap ? update(hits, cnt, int(iter(nodeIdx))) : hits
//@ step seen = isLeafNode && overlap ? update(seen, int(iter(nodeIdx)), cnt) : seen
//@ step cnt = isLeafNode && overlap ? cnt + 1 : cnt
//@ invariant b0 == bmin[0] && b1 == bmin[1] && b2 == bmin[2] && b3 == bmax[0] && b4 == bmax[1] && b5 == bmax[2]
//@ invariant 0 <= nodeIdx && nodeIdx <= endIdx && endIdx == bvEnd(tile.BvTree) && int(n) == min(cnt, int(maxPolys)) && 0 <= cnt
//@ invariant forall s int :: {hits[s]} 0 <= s && s < cnt ==> 0 <= hits[s] && hits[s] < nodeIdx && tile.BvTree[hits[s]].I >= 0 && quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, hits[s])
//@ invariant forall s int, t int :: {hits[s], hits[t]} 0 <= s && s < t && t < cnt ==> hits[s] < hits[t]
//@ invariant forall j int :: {seen[j]} 0 <= j && j < nodeIdx && tile.BvTree[j].I >= 0 && quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, j) ==> 0 <= seen[j] && seen[j] < cnt && hits[seen[j]] == j
//@ endassert forall j int :: {tile.BvTree[j].I} iter(nodeIdx) < j && j < nodeIdx && tile.BvTree[j].I >= 0 ==> !quantMeets(b0, b1, b2, b3, b4, b5, tile.BvTree, j)
//@ decreases endIdx - nodeIdx
//@ loop 2
//@ invariant 0 <= i && i <= tile.Header.PolyCount && 0 <= n && n <= maxPolys
//@ decreases tile.Header.PolyCount - i
//@ loop 3
//@ invariant 1 <= j
//@ decreases 255 - j

//@ func detour.createBVTree
//@ property C11
//@ floats uf
//@ overflow wrap
//@ requires params != nil && 1 <= params.PolyCount && params.PolyCount <= 65535 && 2*params.PolyCount - 1 <= len(nodes) && len(nodes) <= 1073741823
//@ requires len(params.DetailMeshes) > 0 ==> 4*int(params.PolyCount) <= len(params.DetailMeshes) && (forall i int :: {params.DetailMeshes[4*i]} 0 <= i && i < params.PolyCount ==> 0 <= params.DetailMeshes[4*i] && params.DetailMeshes[4*i] <= 100000000 && 1 <= params.DetailMeshes[4*i+1] && params.DetailMeshes[4*i+1] <= 100000000 && 3*(int(params.DetailMeshes[4*i]) + int(params.DetailMeshes[4*i+1])) <= len(params.DetailVerts))
//@ requires len(params.DetailMeshes) == 0 ==> 1 <= params.Nvp && params.Nvp <= 6 && int(params.PolyCount)*int(params.Nvp)*2 <= len(params.Polys) && (forall k int :: {params.Polys[k]} 0 <= k && k < len(params.Polys) && params.Polys[k] != 65535 ==> 3*int(params.Polys[k]) + 2 < len(params.Verts)) && (forall i int :: {params.Polys[i*params.Nvp*2]} 0 <= i && i < params.PolyCount ==> params.Polys[i*params.Nvp*2] != 65535)
//@ ghost at seq int
//@ ghost lx seq int
//@ ghost ly seq int
//@ ghost lz seq int
//@ ghost hx seq int
//@ ghost hy seq int
//@ ghost hz seq int
// the tree over the polygons' boxes: every inner node contains what is below
// it and skips exactly that, every polygon has one leaf
//@ ensures result == 2*params.PolyCount - 1 && bvTreeOK(nodes, 2*params.PolyCount - 1) && bvEnd(nodes) == 2*params.PolyCount - 1
//@ ensures forall t int :: {at[t]} 0 <= t && t < params.PolyCount ==> 0 <= at[t] && at[t] < 2*params.PolyCount - 1 && nodes[at[t]].I == t
//@ ensures forall j int :: {nodes[j].I} 0 <= j && j < 2*params.PolyCount - 1 && nodes[j].I >= 0 ==> nodes[j].I < params.PolyCount && at[nodes[j].I] == j && bvLeaf(nodes, j, lx, ly, lz, hx, hy, hz)
//@ modifies nodes[*]
//@ loop 1
//@ invariant 0 <= i && i <= params.PolyCount && len(items) == params.PolyCount && fresh(items)
//@ invariant forall k int :: {items[k].i} 0 <= k && k < i ==> items[k].i == k
//@ decreases params.PolyCount - i
//@ loop 2
//@ invariant 1 <= j
//@ decreases ndv - j
//@ loop 3
//@ invariant 1 <= j
//@ decreases params.Nvp - j
//@ hook subdivide before ghost lx = seq(t: int(items[t].BMin[0]))
//@ hook subdivide before ghost ly = seq(t: int(items[t].BMin[1]))
//@ hook subdivide before ghost lz = seq(t: int(items[t].BMin[2]))
//@ hook subdivide before ghost hx = seq(t: int(items[t].BMax[0]))
//@ hook subdivide before ghost hy = seq(t: int(items[t].BMax[1]))
//@ hook subdivide before ghost hz = seq(t: int(items[t].BMax[2]))
//@ hook subdivide before ghost arg:nt = int(params.PolyCount)
//@ hook subdivide before ghost arg:pos = seq(t: t)
//@ hook subdivide before ghost arg:at = at
//@ hook subdivide before ghost arg:lx = lx
//@ hook subdivide before ghost arg:ly = ly
//@ hook subdivide before ghost arg:lz = lz
//@ hook subdivide before ghost arg:hx = hx
//@ hook subdivide before ghost arg:hy = hy
//@ hook subdivide before ghost arg:hz = hz
//@ hook subdivide before ghost arg:x0 = 0
//@ hook subdivide before ghost arg:y0 = 0
//@ hook subdivide before ghost arg:z0 = 0
//@ hook subdivide before ghost arg:x1 = 65535
//@ hook subdivide before ghost arg:y1 = 65535
//@ hook subdivide before ghost arg:z1 = 65535
//@ hook subdivide after ghost at = $out_nat
