//go:build verif_contracts

package contracts

// C21: chunked triangle index. Ghost view: lx, lz, hx, hz bound triangle id;
// pos[id] is the position of its item; lo[j] is the first triangle listed at or
// after node j; a0..a3 name, per node, triangles that attain its four bounds.

//@ package recast

//@ opfn posOf(pos seq int, t int) int = pos[t]
//@ lemma posOfIs(pos seq int, t int)
//@ property C21
//@ use posOf
//@ ensures posOf(pos, t) == pos[t]
//@ trigger posOf(pos, t)
//@ pred boxIs(items []BoundsItem, k int, lx seq float32, lz seq float32, hx seq float32, hz seq float32) = items[k].bmin[0] == lx[items[k].i] && items[k].bmin[1] == lz[items[k].i] && items[k].bmax[0] == hx[items[k].i] && items[k].bmax[1] == hz[items[k].i]
//@ pred itemsOK(items []BoundsItem, a int, b int, nt int, pos seq int, lx seq float32, lz seq float32, hx seq float32, hz seq float32) = (forall k int :: {items[k].i} a <= k && k < b ==> 0 <= items[k].i && items[k].i < nt && pos[items[k].i] == k && boxIs(items, k, lx, lz, hx, hz))
//@ pred contains(nodes []ChunkyTriMeshNode, k int, j int) = nodes[k].BMin[0] <= nodes[j].BMin[0] && nodes[k].BMin[1] <= nodes[j].BMin[1] && nodes[j].BMax[0] <= nodes[k].BMax[0] && nodes[j].BMax[1] <= nodes[k].BMax[1]
//@ pred bounds(nodes []ChunkyTriMeshNode, j int, t int, lx seq float32, lz seq float32, hx seq float32, hz seq float32) = nodes[j].BMin[0] <= lx[t] && nodes[j].BMin[1] <= lz[t] && hx[t] <= nodes[j].BMax[0] && hz[t] <= nodes[j].BMax[1]

//@ func recast.calcExtends
//@ property C21
//@ floats real
//@ requires 0 <= imin && imin < imax && imax <= len(items) && len(bmin) >= 2 && len(bmax) >= 2 && arr(bmin) != arr(bmax) && root(bmin) != root(items) && root(bmax) != root(items)
//@ ghost w0 int = imin
//@ ghost w1 int = imin
//@ ghost w2 int = imin
//@ ghost w3 int = imin
//@ ensures imin <= w0 && w0 < imax && bmin[0] == items[w0].bmin[0] && imin <= w1 && w1 < imax && bmin[1] == items[w1].bmin[1]
//@ ensures imin <= w2 && w2 < imax && bmax[0] == items[w2].bmax[0] && imin <= w3 && w3 < imax && bmax[1] == items[w3].bmax[1]
//@ ensures forall k int :: {items[k].i} imin <= k && k < imax ==> bmin[0] <= items[k].bmin[0] && bmin[1] <= items[k].bmin[1] && items[k].bmax[0] <= bmax[0] && items[k].bmax[1] <= bmax[1]
//@ modifies bmin[*], bmax[*]
//@ loop 1
//@ invariant imin + 1 <= i && i <= imax
//@ invariant imin <= w0 && w0 < i && bmin[0] == items[w0].bmin[0] && imin <= w1 && w1 < i && bmin[1] == items[w1].bmin[1]
//@ invariant imin <= w2 && w2 < i && bmax[0] == items[w2].bmax[0] && imin <= w3 && w3 < i && bmax[1] == items[w3].bmax[1]
//@ invariant forall k int :: {items[k].i} imin <= k && k < i ==> bmin[0] <= items[k].bmin[0] && bmin[1] <= items[k].bmin[1] && items[k].bmax[0] <= bmax[0] && items[k].bmax[1] <= bmax[1]
//@ step w0 = it.bmin[0] < iter(bmin[0]) ? i : w0
//@ step w1 = it.bmin[1] < iter(bmin[1]) ? i : w1
//@ step w2 = it.bmax[0] > iter(bmax[0]) ? i : w2
//@ step w3 = it.bmax[1] > iter(bmax[1]) ? i : w3
//@ decreases imax - i

//@ func recast.checkOverlapRect
//@ property C21
//@ floats real
//@ ensures result <==> (amin[0] <= bmax[0] && bmin[0] <= amax[0] && amin[1] <= bmax[1] && bmin[1] <= amax[1])
//@ modifies nothing

//@ pred rectMeets(bmin [2]float32, bmax [2]float32, nodes []ChunkyTriMeshNode, j int) = bmin[0] <= nodes[j].BMax[0] && nodes[j].BMin[0] <= bmax[0] && bmin[1] <= nodes[j].BMax[1] && nodes[j].BMin[1] <= bmax[1]
//@ pred chunkTree(nodes []ChunkyTriMeshNode, n int) = 0 <= n && n <= len(nodes) && (forall k int :: {nodes[k].I} 0 <= k && k < n && nodes[k].I < 0 ==> k - nodes[k].I <= n) && (forall k int, j int :: {nodes[k].I, nodes[j].I} 0 <= k && k < j && j < n && nodes[k].I < 0 && j < k - nodes[k].I ==> contains(nodes, k, j))

//@ func recast.(*ChunkyTriMesh).ChunksOverlappingRect
//@ property C21
//@ floats real
//@ requires cm != nil && chunkTree(cm.Nodes, cm.Nnodes)
//@ requires arr(ids) != arr(cm.Tris)
//@ ghost at seq int
//@ ensures 0 <= result && result <= len(ids)
//@ ensures forall s int :: {ids[s]} 0 <= s && s < result ==> 0 <= ids[s] && ids[s] < cm.Nnodes && cm.Nodes[ids[s]].I >= 0 && rectMeets(bmin, bmax, cm.Nodes, ids[s])
//@ ensures forall a int, b int :: {ids[a], ids[b]} 0 <= a && a < b && b < result ==> ids[a] < ids[b]
//@ ensures result < len(ids) ==> (forall j int :: {cm.Nodes[j].I} 0 <= j && j < cm.Nnodes && cm.Nodes[j].I >= 0 && rectMeets(bmin, bmax, cm.Nodes, j) ==> 0 <= at[j] && at[j] < result && ids[at[j]] == j)
//@ ensures forall s int :: {ids[s]} result <= s && s < len(ids) ==> ids[s] == old(ids[s])
//@ modifies ids[*]
//@ loop 1
//@ invariant 0 <= i && i <= cm.Nnodes && 0 <= n && n <= len(ids)
//@ invariant forall s int :: {ids[s]} 0 <= s && s < n ==> 0 <= ids[s] && ids[s] < i && cm.Nodes[ids[s]].I >= 0 && rectMeets(bmin, bmax, cm.Nodes, ids[s])
//@ invariant forall a int, b int :: {ids[a], ids[b]} 0 <= a && a < b && b < n ==> ids[a] < ids[b]
//@ invariant n < len(ids) ==> (forall j int :: {cm.Nodes[j].I} 0 <= j && j < i && cm.Nodes[j].I >= 0 && rectMeets(bmin, bmax, cm.Nodes, j) ==> 0 <= at[j] && at[j] < n && ids[at[j]] == j)
//@ invariant forall s int :: {ids[s]} n <= s && s < len(ids) ==> ids[s] == old(ids[s])
//@ step at = n > iter(n) ? update(at, iter(i), iter(n)) : at
//@ decreases cm.Nnodes - i

// segment against rectangle, per axis: parameters of entry and exit
//@ opfn slabLo(p float32, d float32, lo float32, hi float32) float32 = min((lo - p) * (1.0 / d), (hi - p) * (1.0 / d))
//@ opfn slabHi(p float32, d float32, lo float32, hi float32) float32 = max((lo - p) * (1.0 / d), (hi - p) * (1.0 / d))
//@ fn flat(d float32) bool = math32.Abs(d) < 0.000001
//@ fn enterT(p float32, d float32, lo float32, hi float32) float32 = flat(d) ? 0.0 : max(0.0, slabLo(p, d, lo, hi))
//@ fn leaveT(p float32, d float32, lo float32, hi float32) float32 = flat(d) ? 1.0 : min(1.0, slabHi(p, d, lo, hi))
//@ pred slabOK(p float32, d float32, lo float32, hi float32) = flat(d) ==> lo <= p && p <= hi
//@ pred segMeets(p [2]float32, q [2]float32, bmin [2]float32, bmax [2]float32) = slabOK(p[0], q[0]-p[0], bmin[0], bmax[0]) && slabOK(p[1], q[1]-p[1], bmin[1], bmax[1]) && max(enterT(p[0], q[0]-p[0], bmin[0], bmax[0]), enterT(p[1], q[1]-p[1], bmin[1], bmax[1])) <= min(leaveT(p[0], q[0]-p[0], bmin[0], bmax[0]), leaveT(p[1], q[1]-p[1], bmin[1], bmax[1]))
// rounding is monotone (finite values)
//@ axiom subMonotone: forall a float32, b float32, c float32 :: {a - c, b - c} a <= b ==> a - c <= b - c
//@ axiom mulMonotone: forall a float32, b float32, c float32 :: {a * c, b * c} a <= b && 0.0 <= c ==> a * c <= b * c
//@ axiom mulReverses: forall a float32, b float32, c float32 :: {a * c, b * c} a <= b && c <= 0.0 ==> b * c <= a * c
//@ lemma slabWider(p float32, d float32, lo float32, hi float32, lo2 float32, hi2 float32)
//@ property C21
//@ floats real
//@ use slabLo, slabHi, subMonotone, mulMonotone, mulReverses
//@ requires lo2 <= lo && hi <= hi2 && lo <= hi
//@ ensures slabLo(p, d, lo2, hi2) <= slabLo(p, d, lo, hi) && slabHi(p, d, lo, hi) <= slabHi(p, d, lo2, hi2)
//@ trigger slabLo(p, d, lo, hi), slabLo(p, d, lo2, hi2)

//@ func recast.checkOverlapSegment
//@ property C21
//@ floats real
//@ use slabLo, slabHi
//@ ensures result <==> segMeets(p, q, bmin, bmax)
//@ modifies nothing

//@ pred boxSound(nodes []ChunkyTriMeshNode, j int) = nodes[j].BMin[0] <= nodes[j].BMax[0] && nodes[j].BMin[1] <= nodes[j].BMax[1]
//@ pred segMeetsNode(p [2]float32, q [2]float32, nodes []ChunkyTriMeshNode, j int) = segMeets(p, q, nodes[j].BMin, nodes[j].BMax)

//@ func recast.(*ChunkyTriMesh).chunksOverlappingSegment
//@ property C21
//@ floats real
//@ use slabWider
//@ requires cm != nil && chunkTree(cm.Nodes, cm.Nnodes) && 0 <= maxIds && maxIds <= len(ids)
//@ requires forall k int :: {cm.Nodes[k].I} 0 <= k && k < cm.Nnodes ==> boxSound(cm.Nodes, k)
//@ requires arr(ids) != arr(cm.Tris)
//@ ghost at seq int
//@ ensures 0 <= result && result <= maxIds
//@ ensures forall s int :: {ids[s]} 0 <= s && s < result ==> 0 <= ids[s] && ids[s] < cm.Nnodes && cm.Nodes[ids[s]].I >= 0 && segMeetsNode(p, q, cm.Nodes, ids[s])
//@ ensures forall a int, b int :: {ids[a], ids[b]} 0 <= a && a < b && b < result ==> ids[a] < ids[b]
//@ ensures result < maxIds ==> (forall j int :: {cm.Nodes[j].I} 0 <= j && j < cm.Nnodes && cm.Nodes[j].I >= 0 && segMeetsNode(p, q, cm.Nodes, j) ==> 0 <= at[j] && at[j] < result && ids[at[j]] == j)
//@ ensures forall s int :: {ids[s]} result <= s && s < len(ids) ==> ids[s] == old(ids[s])
//@ modifies ids[*]
//@ loop 1
//@ invariant 0 <= i && i <= cm.Nnodes && 0 <= n && n <= maxIds
//@ invariant forall s int :: {ids[s]} 0 <= s && s < n ==> 0 <= ids[s] && ids[s] < i && cm.Nodes[ids[s]].I >= 0 && segMeetsNode(p, q, cm.Nodes, ids[s])
//@ invariant forall a int, b int :: {ids[a], ids[b]} 0 <= a && a < b && b < n ==> ids[a] < ids[b]
//@ invariant n < maxIds ==> (forall j int :: {cm.Nodes[j].I} 0 <= j && j < i && cm.Nodes[j].I >= 0 && segMeetsNode(p, q, cm.Nodes, j) ==> 0 <= at[j] && at[j] < n && ids[at[j]] == j)
//@ invariant forall s int :: {ids[s]} n <= s && s < len(ids) ==> ids[s] == old(ids[s])
//@ endassert i == iter(i) + 1 || (forall j int :: {cm.Nodes[j].I} iter(i) <= j && j < i && cm.Nodes[j].I >= 0 ==> !segMeetsNode(p, q, cm.Nodes, j))
//@ step at = n > iter(n) ? update(at, iter(i), iter(n)) : at
//@ decreases cm.Nnodes - i

//@ func recast.longestAxis
//@ property C21
//@ floats real
//@ ensures result == 0 || result == 1
//@ modifies nothing

//@ opfn prod(t int, a int) int = t * a
//@ lemma prodOrder(t int, a int, b int)
//@ property C21
//@ use prod
//@ requires 1 <= t && prod(t, a) < prod(t, b)
//@ ensures a < b
//@ trigger prod(t, a), prod(t, b)
//@ lemma prodNext(t int, a int, b int)
//@ property C21
//@ use prod
//@ requires b == a + 1
//@ ensures prod(t, b) == prod(t, a) + t
//@ trigger prod(t, a), prod(t, b)
//@ pred itemIn(items []BoundsItem, k int, x0 float32, z0 float32, x1 float32, z1 float32) = x0 <= items[k].bmin[0] && z0 <= items[k].bmin[1] && items[k].bmax[0] <= x1 && items[k].bmax[1] <= z1
//@ pred nodeIn(nodes []ChunkyTriMeshNode, j int, x0 float32, z0 float32, x1 float32, z1 float32) = x0 <= nodes[j].BMin[0] && z0 <= nodes[j].BMin[1] && nodes[j].BMax[0] <= x1 && nodes[j].BMax[1] <= z1

//@ pred holds(items []BoundsItem, a int, b int, nt int, pos seq int) = forall t int :: {pos[t]} 0 <= t && t < nt && a <= pos[t] && pos[t] < b ==> items[pos[t]].i == t
//@ pred leafOK(nodes []ChunkyTriMeshNode, j int, nlo seq int, a int, b int, most int) = a <= nlo[j] && nlo[j] <= b && nlo[j+1] == nlo[j] + (nodes[j].I >= 0 ? nodes[j].N : 0) && nlo[j+1] <= b && (nodes[j].I >= 0 ==> nodes[j].I == nlo[j] && 1 <= nodes[j].N && nodes[j].N <= most)
//@ pred listed(outTris []int32, k int, s0 seq int, s1 seq int, s2 seq int, id int) = outTris[3*k] == s0[id] && outTris[3*k+1] == s1[id] && outTris[3*k+2] == s2[id]
//@ pred corners(inTris []int32, nt int, s0 seq int, s1 seq int, s2 seq int) = forall id int :: {s0[id]} 0 <= id && id < nt ==> inTris[3*id] == s0[id] && inTris[3*id+1] == s1[id] && inTris[3*id+2] == s2[id]

//@ func recast.subdivide
//@ timeout 15
//@ paths
//@ property C21
//@ floats real
//@ use prodOrder, prodNext
//@ gparam nt int
//@ gparam pos seq int
//@ gparam lx seq float32
//@ gparam lz seq float32
//@ gparam hx seq float32
//@ gparam hz seq float32
//@ gparam s0 seq int
//@ gparam s1 seq int
//@ gparam s2 seq int
//@ gparam lo seq int
//@ gparam x0 float32
//@ gparam z0 float32
//@ gparam x1 float32
//@ gparam z1 float32
//@ requires 1 <= trisPerChunk && 0 <= imin && imin < imax && imax <= len(items) && nt == len(items) && nt <= 536870911
//@ requires itemsOK(items, imin, imax, nt, pos, lx, lz, hx, hz)
//@ requires holds(items, imin, imax, nt, pos)
//@ requires forall k int :: {items[k].i} imin <= k && k < imax ==> itemIn(items, k, x0, z0, x1, z1)
//@ requires 0 <= *curNode && *curTri == imin && maxNodes <= len(nodes) && 3*nt <= len(outTris) && 3*nt <= len(inTris) && curNode != nil && curTri != nil
//@ requires disjoint(curNode, curTri) && disjoint(curNode, outTris) && disjoint(curTri, outTris) && disjoint(curNode, inTris) && disjoint(curTri, inTris) && disjoint(inTris, outTris)
//@ requires imax - imin <= trisPerChunk ? *curNode + 1 <= maxNodes : prod(trisPerChunk, *curNode) + 4*(imax-imin) - trisPerChunk <= prod(trisPerChunk, maxNodes)
//@ requires corners(inTris, nt, s0, s1, s2)
//@ requires root(nodes) != root(items)
//@ ghost npos seq int = pos
//@ ghost nlo seq int = lo
//@ ensures *curTri == imax && old(*curNode) < *curNode && *curNode <= maxNodes
//@ ensures imax - imin <= trisPerChunk ==> *curNode == old(*curNode) + 1
//@ ensures 2*(imax-imin) >= trisPerChunk ==> prod(trisPerChunk, *curNode) <= prod(trisPerChunk, old(*curNode)) + 4*(imax-imin) - trisPerChunk
//@ ensures itemsOK(items, imin, imax, nt, npos, lx, lz, hx, hz)
//@ ensures forall t int :: {npos[t]} imin <= pos[t] && pos[t] < imax ? imin <= npos[t] && npos[t] < imax : npos[t] == pos[t]
//@ ensures forall k int :: {items[k].i} imin <= k && k < imax ==> itemIn(items, k, x0, z0, x1, z1)
//@ ensures forall k int :: {items[k].i} 0 <= k && k < len(items) && (k < imin || imax <= k) ==> items[k].i == old(items[k].i) && items[k].bmin[0] == old(items[k].bmin[0]) && items[k].bmin[1] == old(items[k].bmin[1]) && items[k].bmax[0] == old(items[k].bmax[0]) && items[k].bmax[1] == old(items[k].bmax[1])
//@ ensures forall k int :: {items[k].i} imin <= k && k < imax ==> listed(outTris, k, s0, s1, s2, items[k].i)
//@ ensures forall q int :: {outTris[q]} 0 <= q && q < len(outTris) && (q < 3*imin || 3*imax <= q) ==> outTris[q] == old(outTris[q])
//@ ensures forall j int :: {nodes[j].I} 0 <= j && j < old(*curNode) ==> nodes[j].I == old(nodes[j].I) && nodes[j].N == old(nodes[j].N) && nodes[j].BMin[0] == old(nodes[j].BMin[0]) && nodes[j].BMin[1] == old(nodes[j].BMin[1]) && nodes[j].BMax[0] == old(nodes[j].BMax[0]) && nodes[j].BMax[1] == old(nodes[j].BMax[1])
//@ ensures forall j int :: {nodes[j].I} old(*curNode) <= j && j < *curNode ==> nodeIn(nodes, j, x0, z0, x1, z1) && j - nodes[j].I <= *curNode
//@ ensures forall k int, j int :: {nodes[k].I, nodes[j].I} old(*curNode) <= k && k < j && j < *curNode && nodes[k].I < 0 && j < k - nodes[k].I ==> contains(nodes, k, j)
//@ ensures holds(items, imin, imax, nt, npos)
//@ ensures forall j int :: {nlo[j]} 0 <= j && j < old(*curNode) ==> nlo[j] == lo[j]
//@ ensures nlo[old(*curNode)] == imin && nlo[*curNode] == imax
//@ ensures forall j int :: {nodes[j].I} old(*curNode) <= j && j < *curNode ==> leafOK(nodes, j, nlo, imin, imax, trisPerChunk)
//@ ensures forall j int, k int :: {nodes[j].I, items[k].i} old(*curNode) <= j && j < *curNode && nodes[j].I >= 0 && nodes[j].I <= k && k < nodes[j].I + nodes[j].N ==> itemIn(items, k, nodes[j].BMin[0], nodes[j].BMin[1], nodes[j].BMax[0], nodes[j].BMax[1])
//@ modifies items[*], nodes[*], *curNode, *curTri, outTris[*]
//@ decreases imax - imin
//@ hook calcExtends after assert nodeIn(nodes, icur, x0, z0, x1, z1)
//@ hook calcExtends after assert forall k int :: {items[k].i} imin <= k && k < imax ==> itemIn(items, k, nodes[icur].BMin[0], nodes[icur].BMin[1], nodes[icur].BMax[0], nodes[icur].BMax[1])
//@ hook calcExtends after ghost nlo = update(update(nlo, icur, imin), icur+1, inum <= trisPerChunk ? imax : imin)
//@ hook SliceStable after ghost npos = seq(t: imin <= npos[t] && npos[t] < imax ? imin + $out_inv[npos[t]-imin] : npos[t])
//@ hook SliceStable after assert itemsOK(items, imin, imax, nt, npos, lx, lz, hx, hz)
//@ hook SliceStable after assert forall k int :: {items[k].i} imin <= k && k < imax ==> itemIn(items, k, nodes[icur].BMin[0], nodes[icur].BMin[1], nodes[icur].BMax[0], nodes[icur].BMax[1])
//@ hook subdivide before ghost arg:pos = npos
//@ hook subdivide before ghost arg:lo = nlo
//@ hook subdivide before ghost arg:x0 = nodes[icur].BMin[0]
//@ hook subdivide before ghost arg:z0 = nodes[icur].BMin[1]
//@ hook subdivide before ghost arg:x1 = nodes[icur].BMax[0]
//@ hook subdivide before ghost arg:z1 = nodes[icur].BMax[1]
//@ hook SliceStable after assert forall t int :: {npos[t]} imin <= pos[t] && pos[t] < imax ? imin <= npos[t] && npos[t] < imax : npos[t] == pos[t]
//@ hook subdivide after ghost npos = $out_npos
//@ hook subdivide after assert forall t int :: {npos[t]} imin <= pos[t] && pos[t] < imax ? imin <= npos[t] && npos[t] < imax : npos[t] == pos[t]
//@ hook subdivide after assert corners(inTris, nt, s0, s1, s2)
//@ hook SliceStable after assert holds(items, imin, imax, nt, npos)
//@ hook subdivide after assert holds(items, imin, isplit, nt, npos) && holds(items, isplit, imax, nt, npos)
//@ hook subdivide#2 after assert forall k int :: {items[k].i} imin <= k && k < isplit ==> listed(outTris, k, s0, s1, s2, items[k].i)
//@ hook subdivide#1 after assert itemsOK(items, imin, isplit, nt, npos, lx, lz, hx, hz) && itemsOK(items, isplit, imax, nt, npos, lx, lz, hx, hz)
//@ hook subdivide#2 after assert forall k int :: {items[k].i} isplit <= k && k < imax ==> listed(outTris, k, s0, s1, s2, items[k].i)
//@ hook subdivide#2 after assert itemsOK(items, imin, isplit, nt, npos, lx, lz, hx, hz)
//@ hook subdivide#2 after assert itemsOK(items, isplit, imax, nt, npos, lx, lz, hx, hz)
//@ hook subdivide#2 after assert forall k int :: {items[k].i} imin <= k && k < isplit ==> npos[items[k].i] == k
//@ hook subdivide after ghost nlo = $out_nlo
//@ loop 1
//@ invariant imin <= i && i <= imax && *curTri == i
//@ invariant forall t int :: {npos[t]} npos[t] == pos[t]
//@ invariant forall j int :: {nlo[j]} nlo[j] == (j == icur ? imin : j == icur+1 ? imax : lo[j])
//@ invariant forall k int :: {items[k].i} imin <= k && k < i ==> listed(outTris, k, s0, s1, s2, items[k].i)
//@ invariant forall q int :: {outTris[q]} 0 <= q && q < len(outTris) && (q < 3*imin || 3*i <= q) ==> outTris[q] == old(outTris[q])
//@ decreases imax - i

//@ lemma chunkCount(n int, t int, q int)
//@ property C21
//@ use prod
//@ requires 1 <= t && 1 <= n && q == (n + t - 1) / t
//@ ensures 1 <= q && q <= n && prod(t, 0) == 0 && prod(t, 4*q) >= 4*n
//@ trigger prod(t, 4*q), (n + t - 1) / t
//@ pred inBox(verts []float32, v int, nodes []ChunkyTriMeshNode, j int) = nodes[j].BMin[0] <= verts[3*v] && verts[3*v] <= nodes[j].BMax[0] && nodes[j].BMin[1] <= verts[3*v+2] && verts[3*v+2] <= nodes[j].BMax[1]
//@ pred boxHolds(items []BoundsItem, k int, verts []float32, v int) = items[k].bmin[0] <= verts[3*v] && verts[3*v] <= items[k].bmax[0] && items[k].bmin[1] <= verts[3*v+2] && verts[3*v+2] <= items[k].bmax[1]

//@ func recast.createChunkyTriMesh
//@ property C21
//@ floats real
//@ requires cm != nil && 1 <= trisPerChunk && 1 <= ntris && ntris <= 268435455 && trisPerChunk <= 268435455 && 3*ntris <= len(tris)
//@ requires forall q int :: {tris[q]} 0 <= q && q < 3*ntris ==> 0 <= tris[q] && 3*tris[q] + 2 < len(verts) && tris[q] < 715827882
//@ ghost id seq int
//@ ghost pos seq int
//@ ghost lo seq int
//@ ghost bx0 float32 = 0.0
//@ ghost bz0 float32 = 0.0
//@ ghost bx1 float32 = 0.0
//@ ghost bz1 float32 = 0.0
//@ ensures result && cm.Ntris == ntris && len(cm.Tris) == 3*ntris && 1 <= cm.Nnodes && cm.Nnodes <= len(cm.Nodes)
//@ ensures forall k int :: {id[k]} 0 <= k && k < ntris ==> 0 <= id[k] && id[k] < ntris && pos[id[k]] == k && cm.Tris[3*k] == tris[3*id[k]] && cm.Tris[3*k+1] == tris[3*id[k]+1] && cm.Tris[3*k+2] == tris[3*id[k]+2]
//@ ensures forall t int :: {pos[t]} 0 <= t && t < ntris ==> 0 <= pos[t] && pos[t] < ntris && id[pos[t]] == t
//@ ensures chunkTree(cm.Nodes, cm.Nnodes)
//@ ensures lo[0] == 0 && lo[cm.Nnodes] == ntris && (forall j int :: {cm.Nodes[j].I} 0 <= j && j < cm.Nnodes ==> leafOK(cm.Nodes, j, lo, 0, ntris, trisPerChunk))
//@ ensures forall j int :: {cm.Nodes[j].I} 0 <= j && j < cm.Nnodes && cm.Nodes[j].I >= 0 ==> cm.Nodes[j].N <= cm.MaxTrisPerChunk
//@ ensures forall j int, k int :: {cm.Nodes[j].I, id[k]} 0 <= j && j < cm.Nnodes && cm.Nodes[j].I >= 0 && cm.Nodes[j].I <= k && k < cm.Nodes[j].I + cm.Nodes[j].N ==> inBox(verts, tris[3*id[k]], cm.Nodes, j) && inBox(verts, tris[3*id[k]+1], cm.Nodes, j) && inBox(verts, tris[3*id[k]+2], cm.Nodes, j)
//@ ensures cm.MaxTrisPerChunk <= trisPerChunk
//@ modifies cm.Nodes, cm.Tris, cm.Ntris, cm.Nnodes, cm.MaxTrisPerChunk
//@ use chunkCount
//@ hook subdivide before ghost arg:nt = ntris
//@ hook subdivide before ghost arg:pos = seq(t: t)
//@ hook subdivide before ghost arg:lo = lo
//@ hook subdivide before ghost arg:lx = seq(k: items[k].bmin[0])
//@ hook subdivide before ghost arg:lz = seq(k: items[k].bmin[1])
//@ hook subdivide before ghost arg:hx = seq(k: items[k].bmax[0])
//@ hook subdivide before ghost arg:hz = seq(k: items[k].bmax[1])
//@ hook subdivide before ghost arg:x0 = bx0
//@ hook subdivide before ghost arg:z0 = bz0
//@ hook subdivide before ghost arg:x1 = bx1
//@ hook subdivide before ghost arg:z1 = bz1
//@ hook subdivide before ghost arg:s0 = seq(k: tris[3*k])
//@ hook subdivide before ghost arg:s1 = seq(k: tris[3*k+1])
//@ hook subdivide before ghost arg:s2 = seq(k: tris[3*k+2])
//@ hook subdivide after ghost pos = $out_npos
//@ hook subdivide after ghost lo = $out_nlo
//@ hook subdivide after ghost id = seq(k: items[k].i)
//@ loop 1
//@ invariant 0 <= i && i <= ntris
//@ invariant forall k int :: {items[k].i} 0 <= k && k < i ==> items[k].i == k && boxHolds(items, k, verts, tris[3*k]) && boxHolds(items, k, verts, tris[3*k+1]) && boxHolds(items, k, verts, tris[3*k+2])
//@ invariant forall k int :: {items[k].i} 0 <= k && k < i ==> itemIn(items, k, bx0, bz0, bx1, bz1)
//@ step bx0 = min(bx0, items[i].bmin[0])
//@ step bz0 = min(bz0, items[i].bmin[1])
//@ step bx1 = max(bx1, items[i].bmax[0])
//@ step bz1 = max(bz1, items[i].bmax[1])
//@ decreases ntris - i
//@ loop 2
//@ invariant 0 <= i && i <= cm.Nnodes && 0 <= cm.MaxTrisPerChunk && cm.MaxTrisPerChunk <= trisPerChunk
//@ invariant forall j int :: {cm.Nodes[j].I} 0 <= j && j < i && cm.Nodes[j].I >= 0 ==> cm.Nodes[j].N <= cm.MaxTrisPerChunk
//@ decreases cm.Nnodes - i
