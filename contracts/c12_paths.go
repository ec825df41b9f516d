//go:build verif_contracts

package contracts

// C12: path buffers and arguments. chain[1..n] are the indices of the nodes
// from the start to the node the path ends at, by the recorded parents.

//@ package detour
//@ pred chainOK(np *NodePool, n int, chain seq int) = 1 <= n && len(np.nodes) <= 65535 && (forall d int :: {chain[d]} 1 <= d && d <= n ==> 0 <= chain[d] && chain[d] < len(np.nodes) && int(np.nodes[chain[d]].PIdx) == (d == 1 ? 0 : chain[d-1] + 1))

//@ func detour.(*NavMeshQuery).pathToNode
//@ property C12
//@ gparam n int
//@ gparam chain seq int
//@ requires q != nil && q.nodePool != nil && chainOK(q.nodePool, n, chain) && endNode == &q.nodePool.nodes[chain[n]] && n <= 1073741823
//@ requires root(path) != root(q.nodePool.nodes)
//@ ensures pathCount == min(n, len(path))
//@ ensures st == (n > len(path) ? Success|BufferTooSmall : Success)
//@ ensures forall k int :: {path[k]} 0 <= k && k < len(path) ==> path[k] == (k < n ? q.nodePool.nodes[chain[k+1]].ID : old(path[k]))
//@ modifies path[*]
//@ loop 1
//@ invariant 0 <= length && length < n && curNode == &q.nodePool.nodes[chain[n-length]]
//@ decreases n - length
//@ loop 2
//@ invariant 0 <= writeCount && writeCount <= n && (n <= len(path) ==> writeCount == n) && (n > len(path) ==> writeCount >= len(path))
//@ invariant writeCount > 0 ==> curNode == &q.nodePool.nodes[chain[writeCount]]
//@ invariant writeCount == 0 ==> curNode == nil
//@ decreases writeCount
//@ loop 3
//@ invariant 0 - 1 <= i && i < writeCount && writeCount == min(n, len(path))
//@ invariant i >= 0 ==> curNode == &q.nodePool.nodes[chain[i+1]]
//@ invariant i == 0 - 1 ==> curNode == nil
//@ invariant forall k int :: {path[k]} 0 <= k && k < len(path) ==> path[k] == (i < k && k < writeCount ? q.nodePool.nodes[chain[k+1]].ID : old(path[k]))
//@ decreases i + 1

//@ func detour.(*NodePool).NodeAtIdx#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies nothing

//@ func detour.(*NodePool).Clear#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*NodePool).Node#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*NodePool).NodeIdx#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*nodeQueue).clear#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*nodeQueue).empty#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*nodeQueue).bubbleUp#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*nodeQueue).trickleDown#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*nodeQueue).push#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*nodeQueue).pop#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*nodeQueue).modify#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*NavMeshQuery).portalPoints8#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*NavMeshQuery).edgeMidPoint#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies *

//@ func detour.(*Poly).Type#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies nothing

//@ func detour.IntersectSegmentPoly2D#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ modifies nothing

//@ func detour.QueryFilter.Cost
//@ trusted
//@ floats uf
//@ modifies nothing

//@ func detour.(*NavMeshQuery).pathToNode#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ variant frame
//@ ensures pathCount <= len(path)
//@ ensures st == Success || (st == Success|BufferTooSmall && pathCount == len(path))
//@ modifies path[*]
//@ loop 1
//@ noauto
//@ loop 2
//@ noauto
//@ loop 3
//@ noauto

//@ func detour.(*NavMeshQuery).FindPath
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame -detour.(*NavMesh).IsValidPolyRef
//@ requires q != nil && q.nav != nil && splitOK(q.nav) && meshShape(q.nav)
//@ ensures !old(liveRef(q.nav, startRef)) || !old(liveRef(q.nav, endRef)) || len(startPos) < 3 || len(endPos) < 3 || filter == nil || len(path) == 0 ==> pathCount == 0 && st == Failure|InvalidParam
//@ ensures pathCount <= len(path)
//@ ensures StatusFailed(st) || StatusSucceed(st)
//@ ensures len(path) > 0 && old(liveRef(q.nav, startRef)) && startRef == endRef && len(startPos) >= 3 && len(endPos) >= 3 && filter != nil ==> pathCount == 1 && st == Success && path[0] == startRef
//@ modifies *

//@ func detour.(*NavMeshQuery).Raycast
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame -detour.(*NavMesh).IsValidPolyRef
//@ requires q != nil && q.nav != nil && splitOK(q.nav) && meshShape(q.nav)
//@ ensures hit == nil ==> st == Failure|InvalidParam
//@ ensures hit != nil && (!old(liveRef(q.nav, startRef)) || startRef == 0 || (prevRef != 0 && !old(liveRef(q.nav, prevRef))) || len(startPos) < 3 || len(endPos) < 3 || filter == nil) ==> st == Failure|InvalidParam && hit.PathCount == 0 && hit.T == 0.0 && hit.PathCost == 0.0
//@ ensures hit != nil ==> 0 <= hit.PathCount && (hit.PathCount <= hit.MaxPath || hit.PathCount == 0) && hit.MaxPath == old(hit.MaxPath)
//@ ensures st == Success || st == Success|BufferTooSmall || st == Failure|InvalidParam
//@ ensures st == Success|BufferTooSmall ==> hit.PathCount == max(0, hit.MaxPath)
//@ modifies *
//@ loop 1
//@ invariant 0 <= n && (n <= hit.MaxPath || n == 0)
//@ invariant st == Success || (st == Success|BufferTooSmall && n == max(0, hit.MaxPath))

//@ func detour.(*NavMesh).IsValidPolyRef#frame
//@ property C12
//@ maypanic
//@ overflow wrap
//@ variant frame
//@ inline detour.(*NavMesh).DecodePolyID
//@ modifies nothing

//@ func detour.(*NavMesh).TileByRef#frame
//@ property C12
//@ maypanic
//@ overflow wrap
//@ variant frame
//@ requires m != nil
//@ modifies nothing

//@ func detour.(*NavMeshQuery).Raycast#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ ensures hit != nil ==> 0 <= hit.PathCount && (hit.PathCount <= hit.MaxPath || hit.PathCount == 0) && hit.MaxPath == old(hit.MaxPath)
//@ modifies *
//@ loop 1
//@ invariant 0 <= n && (n <= hit.MaxPath || n == 0)

//@ func detour.(*NavMeshQuery).Raycast2#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame
//@ ensures 0 <= pathCount && (pathCount <= maxPath || pathCount == 0)
//@ modifies *

//@ func detour.(*NavMeshQuery).Raycast2
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ requires q != nil && q.nav != nil && splitOK(q.nav) && meshShape(q.nav)
//@ ensures !old(liveRef(q.nav, startRef)) || len(startPos) < 3 || len(endPos) < 3 || filter == nil ==> st == Failure|InvalidParam && pathCount == 0
//@ ensures 0 <= pathCount && (pathCount <= maxPath || pathCount == 0)
//@ ensures st == Success || st == Success|BufferTooSmall || st == Failure|InvalidParam
//@ ensures st == Success|BufferTooSmall ==> pathCount == max(0, maxPath)
//@ modifies *

//@ func detour.(*NavMeshQuery).FinalizeSlicedFindPath
//@ property C12
//@ maypanic
//@ noterm
//@ floats uf
//@ variant frame
//@ requires q != nil
//@ ensures min(len(path), maxPath) < 1 ==> pathCount == 0 && st == Failure|InvalidParam
//@ ensures 0 <= pathCount && (pathCount == 0 || pathCount <= min(len(path), maxPath))
//@ ensures min(len(path), maxPath) >= 1 && old(StatusFailed(q.query.status)) ==> pathCount == 0 && st == Failure
//@ ensures min(len(path), maxPath) >= 1 && !old(StatusFailed(q.query.status)) ==> StatusSucceed(st)
//@ ensures min(len(path), maxPath) >= 1 && !old(StatusFailed(q.query.status)) && old(q.query.startRef == q.query.endRef) ==> pathCount == 1 && path[0] == old(q.query.startRef)
//@ modifies *
//@ loop 2
//@ invariant 0 <= n && n < maxPath

//@ func detour.(*NavMeshQuery).FinalizeSlicedFindPathPartial
//@ property C12
//@ maypanic
//@ noterm
//@ floats uf
//@ variant frame
//@ requires q != nil && existingSize >= 0
//@ ensures existingSize == 0 ==> pathCount == 0 && st == Failure
//@ ensures existingSize != 0 && min(len(path), maxPath) < 1 ==> pathCount == 0 && st == Failure|InvalidParam
//@ ensures 0 <= pathCount && (pathCount == 0 || pathCount <= min(len(path), maxPath))
//@ modifies *
//@ loop 3
//@ invariant 0 <= n && n < maxPath

//@ func detour.(*NodePool).FindNodes#frame
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ variant frame
//@ modifies *

//@ func detour.(*NavMeshQuery).InitSlicedFindPath
//@ property C12
//@ maypanic
//@ noterm
//@ overflow wrap
//@ floats uf
//@ variant frame -detour.(*NavMesh).IsValidPolyRef
//@ requires q != nil && q.nav != nil && splitOK(q.nav) && meshShape(q.nav)
//@ ensures !old(liveRef(q.nav, startRef)) || !old(liveRef(q.nav, endRef)) || startRef == 0 || endRef == 0 || len(startPos) < 3 || len(endPos) < 3 || filter == nil ==> result == Failure|InvalidParam && q.query.status == Failure
//@ ensures result == Success || result == InProgress || result == Failure|InvalidParam
//@ modifies *
