//go:build verif_contracts

package contracts

// C08: the open list is a binary min-heap on Node.Total.

//@ package detour

// number of occurrences of x in the first n entries
//@ recfn cnt(A seq *Node, n int, x *Node) int = n <= 0 ? 0 : cnt(A, n-1, x) + (A[n-1] == x ? 1 : 0)

//@ lemma cntUpd(A seq *Node, n int, i int, v *Node, x *Node)
//@ property C08
//@ requires 0 <= i
//@ ensures cnt(update(A, i, v), n, x) == cnt(A, n, x) + (i < n ? (v == x ? 1 : 0) - (A[i] == x ? 1 : 0) : 0)
//@ exitassert n > 0 ==> cnt(update(A, i, v), n-1, x) == cnt(A, n-1, x) + (i < n-1 ? (v == x ? 1 : 0) - (A[i] == x ? 1 : 0) : 0)
//@ exitassert n > 0 ==> cnt(A, n, x) == cnt(A, n-1, x) + (A[n-1] == x ? 1 : 0)
//@ induct n
//@ trigger cnt(update(A, i, v), n, x)

//@ pred queueShape(q *nodeQueue) = q != nil && q.capacity >= 1 && q.capacity < 1000000000 && len(q.heap) == q.capacity + 1 && off(q.heap) == 0 && 0 <= q.size && q.size <= q.capacity && forall i int :: {q.heap[i]} 0 <= i && i < q.size ==> q.heap[i] != nil && !isnan(q.heap[i].Total)
//@ pred childOf(p int, c int) = c == 2*p+1 || c == 2*p+2
//@ pred queueHeap(q *nodeQueue) = forall p int, c int :: {q.heap[p], q.heap[c]} 0 <= p && childOf(p, c) && c < q.size ==> fle(q.heap[p].Total, q.heap[c].Total)
// a heap except at position i, where a node of total t may be placed or moved up
//@ pred heapBut(q *nodeQueue, i int) = forall p int, c int :: {q.heap[p], q.heap[c]} 0 <= p && childOf(p, c) && c < q.size && p != i && c != i ==> fle(q.heap[p].Total, q.heap[c].Total)
//@ pred bridged(q *nodeQueue, i int) = forall p int, c int :: {q.heap[p], q.heap[c]} 0 <= p && childOf(p, i) && childOf(i, c) && c < q.size ==> fle(q.heap[p].Total, q.heap[c].Total)

//@ lemma rootMin(q *nodeQueue, j int)
//@ property C08
//@ requires queueShape(q) && queueHeap(q) && 0 <= j && j < q.size
//@ ensures fle(q.heap[0].Total, q.heap[j].Total)
//@ exitassert j > 0 ==> childOf((j-1)/2, j) && fle(q.heap[(j-1)/2].Total, q.heap[j].Total)
//@ induct j
//@ trigger q.heap[j]

//@ func detour.newnodeQueue
//@ property C08
//@ requires 1 <= n && n < 1000000000
//@ ensures queueShape(result) && queueHeap(result) && result.size == 0 && result.capacity == n && fresh(result)
//@ modifies nothing

//@ func detour.(*nodeQueue).bubbleUp
//@ property C08
//@ requires q != nil && q.capacity >= 1 && q.capacity < 1000000000 && len(q.heap) == q.capacity + 1 && off(q.heap) == 0 && 0 <= q.size && q.size <= q.capacity
//@ requires forall k int :: {q.heap[k]} 0 <= k && k < q.size && k != i ==> q.heap[k] != nil && !isnan(q.heap[k].Total)
//@ requires node != nil && !isnan(node.Total) && 0 <= i && (i < q.size || i == 0)
//@ requires heapBut(q, i) && bridged(q, i)
//@ requires forall c int :: {q.heap[c]} childOf(i, c) && c < q.size ==> fle(node.Total, q.heap[c].Total)
//@ ensures queueShape(q) && queueHeap(q)
//@ ensures forall x *Node :: {cnt(raw(q.heap), q.size, x)} cnt(raw(q.heap), q.size, x) == old(cnt(raw(q.heap), q.size, x)) + (old(i) < q.size ? (node == x ? 1 : 0) - (old(q.heap[i]) == x ? 1 : 0) : 0)
//@ modifies q.heap[*]
//@ use cntUpd
//@ loop 1
//@ invariant 0 <= i && i <= old(i) && (i > 0 ==> parent == (i-1)/2) && (i == 0 ==> parent == 0)
//@ invariant forall k int :: {q.heap[k]} 0 <= k && k < q.size && k != i ==> q.heap[k] != nil && !isnan(q.heap[k].Total)
//@ invariant heapBut(q, i) && bridged(q, i)
//@ invariant forall c int :: {q.heap[c]} childOf(i, c) && c < q.size ==> fle(node.Total, q.heap[c].Total)
//@ invariant forall x *Node :: {cnt(raw(q.heap), q.size, x)} cnt(raw(q.heap), q.size, x) - (i < q.size ? (q.heap[i] == x ? 1 : 0) : 0) == old(cnt(raw(q.heap), q.size, x) - (i < q.size ? (q.heap[i] == x ? 1 : 0) : 0))
//@ decreases i

//@ func detour.(*nodeQueue).trickleDown
//@ property C08
//@ requires q != nil && q.capacity >= 1 && q.capacity < 1000000000 && len(q.heap) == q.capacity + 1 && off(q.heap) == 0 && 0 <= q.size && q.size <= q.capacity
//@ requires forall k int :: {q.heap[k]} 0 <= k && k < q.size && k != i ==> q.heap[k] != nil && !isnan(q.heap[k].Total)
//@ requires node != nil && !isnan(node.Total) && 0 <= i && (i < q.size || i == 0)
//@ requires heapBut(q, i) && bridged(q, i)
//@ ensures queueShape(q) && queueHeap(q)
//@ ensures forall x *Node :: {cnt(raw(q.heap), q.size, x)} cnt(raw(q.heap), q.size, x) == old(cnt(raw(q.heap), q.size, x)) + (old(i) < q.size ? (node == x ? 1 : 0) - (old(q.heap[i]) == x ? 1 : 0) : 0)
//@ modifies q.heap[*]
//@ use cntUpd
//@ loop 1
//@ invariant 0 <= i && (i < q.size || (i == 0 && old(i) == 0)) && child == 2*i+1
//@ invariant forall k int :: {q.heap[k]} 0 <= k && k < q.size && k != i ==> q.heap[k] != nil && !isnan(q.heap[k].Total)
//@ invariant heapBut(q, i) && bridged(q, i)
//@ invariant forall x *Node :: {cnt(raw(q.heap), q.size, x)} cnt(raw(q.heap), q.size, x) - (i < q.size ? (q.heap[i] == x ? 1 : 0) : 0) == old(cnt(raw(q.heap), q.size, x) - (i < q.size ? (q.heap[i] == x ? 1 : 0) : 0))
//@ decreases q.size - i

//@ func detour.(*nodeQueue).clear
//@ property C08
//@ requires queueShape(q)
//@ ensures q.size == 0 && queueShape(q) && queueHeap(q)
//@ modifies q.size

//@ func detour.(*nodeQueue).empty
//@ property C08
//@ requires q != nil
//@ ensures result <==> q.size == 0
//@ modifies nothing

//@ func detour.(*nodeQueue).top
//@ property C08
//@ requires queueShape(q) && queueHeap(q) && q.size > 0
//@ ensures result == q.heap[0] && result != nil
//@ ensures forall j int :: {q.heap[j]} 0 <= j && j < q.size ==> fle(result.Total, q.heap[j].Total)
//@ modifies nothing
//@ use rootMin

//@ func detour.(*nodeQueue).pop
//@ property C08
//@ requires queueShape(q) && queueHeap(q) && q.size > 0
//@ ensures queueShape(q) && queueHeap(q) && q.size == old(q.size) - 1
//@ ensures result == old(q.heap[0]) && result != nil
//@ ensures old(forall j int :: {q.heap[j]} 0 <= j && j < q.size ==> fle(q.heap[0].Total, q.heap[j].Total))
//@ ensures forall x *Node :: {cnt(raw(q.heap), q.size, x)} cnt(raw(q.heap), q.size, x) == old(cnt(raw(q.heap), q.size, x)) - (result == x ? 1 : 0)
//@ modifies q.size, q.heap[*]
//@ use rootMin cntUpd

//@ func detour.(*nodeQueue).push
//@ property C08
//@ requires queueShape(q) && queueHeap(q) && q.size < q.capacity && node != nil && !isnan(node.Total)
//@ ensures queueShape(q) && queueHeap(q) && q.size == old(q.size) + 1
//@ ensures forall x *Node :: {cnt(raw(q.heap), q.size, x)} cnt(raw(q.heap), q.size, x) == old(cnt(raw(q.heap), q.size, x)) + (node == x ? 1 : 0)
//@ modifies q.size, q.heap[*]

// The node's total was lowered while it was queued: everything but the pairs in
// which it is the child is still ordered.
//@ func detour.(*nodeQueue).modify
//@ property C08
//@ requires queueShape(q)
//@ requires forall a int, b int :: {q.heap[a], q.heap[b]} 0 <= a && a < q.size && 0 <= b && b < q.size && q.heap[a] == node && q.heap[b] == node ==> a == b
//@ requires forall p int, c int :: {q.heap[p], q.heap[c]} 0 <= p && childOf(p, c) && c < q.size && q.heap[c] != node ==> fle(q.heap[p].Total, q.heap[c].Total)
//@ requires forall p int, i int, c int :: {q.heap[p], q.heap[i], q.heap[c]} 0 <= p && childOf(p, i) && childOf(i, c) && c < q.size && q.heap[i] == node ==> fle(q.heap[p].Total, q.heap[c].Total)
//@ ensures queueShape(q) && queueHeap(q)
//@ ensures forall x *Node :: {cnt(raw(q.heap), q.size, x)} cnt(raw(q.heap), q.size, x) == old(cnt(raw(q.heap), q.size, x))
//@ modifies q.heap[*]
//@ loop 1
//@ invariant 0 <= i && i <= q.size
//@ invariant forall k int :: {q.heap[k]} 0 <= k && k < i ==> q.heap[k] != node
