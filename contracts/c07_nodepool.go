//go:build verif_contracts

package contracts

// C07: the search node pool. Nodes live in an arena; nodes whose references
// hash to the same bucket form a chain in strictly descending arena order, and
// no node of the bucket is missing from its chain.

//@ package detour

//@ func detour.hashRef
//@ property C07
//@ function
//@ overflow wrap

//@ fn bucketOf(np *NodePool, id PolyRef) uint32 = hashRef(id) & uint32(np.hashSize - 1)
//@ fn nodeBucket(np *NodePool, k int) uint32 = bucketOf(np, np.nodes[k].ID)
//@ pred poolShape(np *NodePool) = np != nil && 1 <= np.maxNodes && np.maxNodes <= 65535 && len(np.nodes) == np.maxNodes && len(np.next) == np.maxNodes && 1 <= np.hashSize && len(np.first) == np.hashSize && 0 <= np.nodeCount && np.nodeCount <= np.maxNodes && arr(np.next) != arr(np.first)
//@ pred poolHeads(np *NodePool) = forall b int :: {np.first[b]} 0 <= b && b < np.hashSize ==> np.first[b] == 65535 || (np.first[b] < np.nodeCount && nodeBucket(np, np.first[b]) == b)
//@ pred poolNexts(np *NodePool) = forall i int :: {np.next[i]} 0 <= i && i < np.nodeCount ==> np.next[i] == 65535 || (np.next[i] < i && nodeBucket(np, np.next[i]) == nodeBucket(np, i))
//@ pred poolHeadGaps(np *NodePool) = forall b int, k int :: {np.first[b], np.nodes[k].ID} 0 <= b && b < np.hashSize && 0 <= k && k < np.nodeCount && (np.first[b] == 65535 || k > np.first[b]) ==> nodeBucket(np, k) != b
//@ pred poolNextGaps(np *NodePool) = forall i int, k int :: {np.next[i], np.nodes[k].ID} 0 <= k && k < i && i < np.nodeCount && (np.next[i] == 65535 || k > np.next[i]) ==> nodeBucket(np, k) != nodeBucket(np, i)
//@ pred poolUnique(np *NodePool) = forall i int, j int :: {np.nodes[i].ID, np.nodes[j].ID} 0 <= i && i < j && j < np.nodeCount ==> np.nodes[i].ID != np.nodes[j].ID || np.nodes[i].State != np.nodes[j].State
//@ pred poolOK(np *NodePool) = poolShape(np) && poolHeads(np) && poolNexts(np) && poolHeadGaps(np) && poolNextGaps(np) && poolUnique(np)
//@ pred isNode(np *NodePool, k int, id PolyRef, st uint8) = np.nodes[k].ID == id && np.nodes[k].State == st

// Asserted by the code (and now proved for the values it computes): hashSize a
// power of two. Correctness of the chains needs only hashSize >= 1.
//@ func detour.newNodePool
//@ property C07
//@ requires 1 <= maxNodes && maxNodes <= 65535 && 1 <= hashSize
//@ ensures poolOK(result) && result.nodeCount == 0 && result.maxNodes == maxNodes && result.hashSize == hashSize && fresh(result)
//@ modifies nothing
//@ loop 2
//@ invariant forall k int :: {np.first[k]} 0 <= k && k < $i ==> np.first[k] == 65535

//@ func detour.(*NodePool).Clear
//@ property C07
//@ requires poolOK(np)
//@ ensures poolOK(np) && np.nodeCount == 0
//@ ensures np.maxNodes == old(np.maxNodes) && np.hashSize == old(np.hashSize)
//@ modifies np.first[*], np.nodeCount
//@ loop 1
//@ invariant forall k int :: {np.first[k]} 0 <= k && k < $i ==> np.first[k] == 65535

//@ func detour.(*NodePool).Node
//@ property C07
//@ requires poolOK(np)
//@ ensures poolOK(np)
//@ ensures forall k int :: {np.nodes[k].ID} 0 <= k && k < old(np.nodeCount) && old(isNode(np, k, id, state)) ==> result == &np.nodes[k] && np.nodeCount == old(np.nodeCount)
//@ ensures (forall k int :: {np.nodes[k].ID} 0 <= k && k < old(np.nodeCount) ==> !old(isNode(np, k, id, state))) && old(np.nodeCount) < np.maxNodes ==> result == &np.nodes[old(np.nodeCount)] && np.nodeCount == old(np.nodeCount) + 1
//@ ensures np.nodeCount != old(np.nodeCount) ==> result == &np.nodes[old(np.nodeCount)] && result.PIdx == 0 && result.Flags == 0
//@ ensures np.nodeCount != old(np.nodeCount) ==> feq(result.Cost, 0.0) && feq(result.Total, 0.0)
//@ ensures (forall k int :: {np.nodes[k].ID} 0 <= k && k < old(np.nodeCount) ==> !old(isNode(np, k, id, state))) && old(np.nodeCount) >= np.maxNodes ==> result == nil && np.nodeCount == old(np.nodeCount)
//@ ensures result != nil ==> result.ID == id && result.State == state
//@ ensures forall k int :: {np.nodes[k].ID} 0 <= k && k < old(np.nodeCount) ==> np.nodes[k].ID == old(np.nodes[k].ID) && np.nodes[k].State == old(np.nodes[k].State)
//@ modifies np.nodeCount, np.first[*], np.next[*], np.nodes[old(np.nodeCount)].ID, np.nodes[old(np.nodeCount)].State, np.nodes[old(np.nodeCount)].PIdx, np.nodes[old(np.nodeCount)].Cost, np.nodes[old(np.nodeCount)].Total, np.nodes[old(np.nodeCount)].Flags
//@ loop 1
//@ invariant i == 65535 || (i < np.nodeCount && nodeBucket(np, i) == bucket)
//@ invariant forall k int :: {np.nodes[k].ID} 0 <= k && k < np.nodeCount && (i == 65535 || k > i) ==> !isNode(np, k, id, state)
//@ decreases i == 65535 ? 0 : i + 1

//@ func detour.(*NodePool).FindNode
//@ property C07
//@ requires poolOK(np)
//@ ensures forall k int :: {np.nodes[k].ID} 0 <= k && k < np.nodeCount && isNode(np, k, id, state) ==> result == &np.nodes[k]
//@ ensures (forall k int :: {np.nodes[k].ID} 0 <= k && k < np.nodeCount ==> !isNode(np, k, id, state)) ==> result == nil
//@ ensures result != nil ==> result.ID == id && result.State == state
//@ modifies nothing
//@ loop 1
//@ invariant i == 65535 || (i < np.nodeCount && nodeBucket(np, i) == bucket)
//@ invariant forall k int :: {np.nodes[k].ID} 0 <= k && k < np.nodeCount && (i == 65535 || k > i) ==> !isNode(np, k, id, state)
//@ decreases i == 65535 ? 0 : i + 1

// Every node of the reference, each once (in descending arena order), as far as
// the buffer reaches.
//@ func detour.(*NodePool).FindNodes
//@ property C07
//@ ghost posn seq int
//@ ghost where seq int
//@ requires poolOK(np) && 0 <= maxNodes && maxNodes <= len(nodes)
//@ ensures result <= maxNodes
//@ ensures forall j int :: {posn[j]} 0 <= j && j < result ==> 0 <= posn[j] && posn[j] < np.nodeCount && nodes[j] == &np.nodes[posn[j]] && np.nodes[posn[j]].ID == id && (j > 0 ==> posn[j] < posn[j-1])
//@ ensures result < maxNodes ==> forall k int :: {np.nodes[k].ID} 0 <= k && k < np.nodeCount && np.nodes[k].ID == id ==> 0 <= where[k] && where[k] < result && posn[where[k]] == k
//@ modifies nodes[*]
//@ loop 1
//@ invariant i == 65535 || (i < np.nodeCount && nodeBucket(np, i) == bucket)
//@ invariant 0 <= n && n <= maxNodes
//@ invariant forall j int :: {posn[j]} 0 <= j && j < n ==> 0 <= posn[j] && posn[j] < np.nodeCount && (i != 65535 ==> posn[j] > i) && nodes[j] == &np.nodes[posn[j]] && np.nodes[posn[j]].ID == id && (j > 0 ==> posn[j] < posn[j-1])
//@ invariant forall k int :: {np.nodes[k].ID} 0 <= k && k < np.nodeCount && np.nodes[k].ID == id && (i == 65535 || k > i) ==> 0 <= where[k] && where[k] < n && posn[where[k]] == k
//@ step posn = n > iter(n) ? update(posn, iter(n), iter(i)) : posn
//@ step where = n > iter(n) ? update(where, iter(i), iter(n)) : where
//@ decreases i == 65535 ? 0 : i + 1

//@ func detour.(*NodePool).NodeIdx
//@ property C07
//@ gparam k int
//@ requires np != nil && len(np.nodes) >= 1 && len(np.nodes) <= 65535 && 0 <= k && k < len(np.nodes) && (node == nil || node == &np.nodes[k])
//@ ensures node == nil ==> result == 0
//@ ensures node != nil ==> result == k + 1
//@ modifies nothing

//@ func detour.(*NodePool).NodeAtIdx
//@ property C07
//@ requires np != nil && 0 <= idx && idx <= len(np.nodes)
//@ ensures idx == 0 ==> result == nil
//@ ensures idx > 0 ==> result == &np.nodes[idx-1]
//@ modifies nothing

//@ func detour.(*NodePool).NodeCount
//@ property C07
//@ requires np != nil
//@ ensures result == np.nodeCount
//@ modifies nothing

//@ func detour.(*NodePool).MaxNodes
//@ property C07
//@ requires np != nil
//@ ensures result == np.maxNodes
//@ modifies nothing
