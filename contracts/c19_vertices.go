//go:build verif_contracts

package contracts

// C19: vertex welding (hash chains over the vertex array; new vertices go to the front of their chain,
// so chains run through strictly falling numbers).

//@ package recast

//@ func recast.computeVertexHash
//@ property C19
//@ function
//@ requires 0 <= x && x <= 65535 && 0 <= y && y <= 65535 && 0 <= z && z <= 65535
//@ ensures 0 <= result && result < VERTEX_BUCKET_COUNT
//@ modifies nothing

//@ func recast.iAbs
//@ property C19
//@ requires a > -2147483648
//@ ensures result == (a < 0 ? 0 - a : a)
//@ modifies nothing

//@ pred sameCell(vs []uint16, k int, x uint16, z uint16) = vs[k*3] == x && vs[k*3+2] == z
//@ pred matches(vs []uint16, k int, x uint16, y uint16, z uint16) = vs[k*3] == x && vs[k*3+2] == z && int(vs[k*3+1]) - int(y) <= 2 && int(y) - int(vs[k*3+1]) <= 2
//@ fn weldBucket(vs []uint16, k int) int = computeVertexHash(int32(vs[k*3]), 0, int32(vs[k*3+2]))
//@ pred welded(vs []uint16, fv []int32, nx []int32, n int) = 0 <= n && n < 65536 && len(vs) >= 3*n && len(fv) == VERTEX_BUCKET_COUNT && len(nx) >= n && (forall b int :: {fv[b]} 0 <= b && b < VERTEX_BUCKET_COUNT ==> fv[b] == -1 || 0 <= fv[b] && fv[b] < n && weldBucket(vs, fv[b]) == b) && (forall k int :: {nx[k]} 0 <= k && k < n ==> nx[k] == -1 || 0 <= nx[k] && nx[k] < k && weldBucket(vs, nx[k]) == weldBucket(vs, k)) && (forall k int :: {vs[k*3]} 0 <= k && k < n ==> k <= fv[weldBucket(vs, k)]) && (forall k int, q int :: {nx[k], vs[q*3]} 0 <= q && q < k && k < n && weldBucket(vs, q) == weldBucket(vs, k) ==> q <= nx[k])

//@ func recast.addVertex
//@ paths
//@ property C19
//@ requires welded(verts, firstVert, nextVert, *nv) && *nv < 65535 && len(verts) >= 3 * *nv + 3 && len(nextVert) > *nv
//@ requires nv != nil && disjoint(firstVert, nextVert) && disjoint(nv, firstVert) && disjoint(nv, nextVert)
//@ ensures welded(verts, firstVert, nextVert, *nv)
//@ ensures (exists k int :: {verts[k*3]} 0 <= k && k < old(*nv) && old(matches(verts, k, x, y, z))) ==> matches(verts, result, x, y, z) && result < old(*nv) && *nv == old(*nv)
//@ ensures !(exists k int :: {verts[k*3]} 0 <= k && k < old(*nv) && old(matches(verts, k, x, y, z))) ==> result == old(*nv) && *nv == old(*nv) + 1 && verts[result*3] == x && verts[result*3+1] == y && verts[result*3+2] == z
//@ ensures forall k int :: {verts[k]} 0 <= k && k < 3*old(*nv) ==> verts[k] == old(verts[k])
//@ ensures result < *nv && sameCell(verts, result, x, z)
//@ modifies verts[*], firstVert[*], nextVert[*], *nv
//@ loop 1
//@ invariant i == -1 || 0 <= i && i < *nv && weldBucket(verts, i) == bucket
//@ invariant forall k int :: {verts[k*3]} i < k && k < *nv && weldBucket(verts, k) == bucket ==> !matches(verts, k, x, y, z)
//@ decreases i + 1
