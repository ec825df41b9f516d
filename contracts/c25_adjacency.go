//go:build verif_contracts

package contracts

// C25: mesh adjacency. Ghost view of the polygon array: row[i] is where
// polygon i starts, nv[i] its number of vertices; a side is named by its slot
// row[i]+j, and src, dst are its end points. polyOf and sideOf give the polygon
// and side of a directed edge (a to b), -1 if no polygon has it. num[s] counts
// the upward sides (src < dst) listed before slot s; eP[e], eS[e] is the e-th.

//@ package recast

//@ opfn edgeKey(a int, b int) int = a*65536 + b
//@ opfn sideSlot(a int, j int) int = a + j
//@ lemma sideSlotIs(a int, j int)
//@ property C25
//@ use sideSlot
//@ ensures sideSlot(a, j) == a + j
//@ trigger sideSlot(a, j)
//@ pred polyRows(np int, vpp int, row seq int) = (forall i int :: {row[i]} 0 <= i && i <= np ==> row[i] == i*vpp*2) && (forall a int, b int :: {row[a], row[b]} 0 <= a && a < b && b <= np ==> row[a] + 2*vpp <= row[b])
//@ pred polyListed(ps []uint16, nverts int, vpp int, row seq int, nv seq int, i int) = 1 <= nv[i] && nv[i] <= vpp && 0 <= row[i] && row[i] + 2*vpp <= len(ps) && (nv[i] < vpp ==> ps[row[i]+nv[i]] == 65535)
//@ pred sideListed(ps []uint16, nverts int, vpp int, row seq int, nv seq int, src seq int, dst seq int, i int, j int) = 0 <= src[sideSlot(row[i], j)] && src[sideSlot(row[i], j)] < nverts && ps[row[i]+j] == src[sideSlot(row[i], j)] && 0 <= dst[sideSlot(row[i], j)] && dst[sideSlot(row[i], j)] < nverts && dst[sideSlot(row[i], j)] == (j+1 < nv[i] ? src[row[i]+j+1] : src[sideSlot(row[i], 0)]) && ps[row[i]+vpp+j] == 65535
//@ pred edgeKnown(row seq int, src seq int, dst seq int, polyOf seq int, sideOf seq int, i int, j int) = polyOf[edgeKey(src[sideSlot(row[i], j)], dst[sideSlot(row[i], j)])] == i && sideOf[edgeKey(src[sideSlot(row[i], j)], dst[sideSlot(row[i], j)])] == j
//@ pred keyOK(np int, row seq int, nv seq int, src seq int, dst seq int, a int, b int, p int, s int) = p == -1 || 0 <= p && p < np && 0 <= s && s < nv[p] && src[sideSlot(row[p], s)] == a && dst[sideSlot(row[p], s)] == b
//@ pred polysOK(ps []uint16, np int, nverts int, vpp int, row seq int, nv seq int, src seq int, dst seq int) = 0 <= np && np < 65535 && 0 <= nverts && nverts < 65535 && 1 <= vpp && vpp <= 1000 && len(ps) <= 2147483647 - 2000 && polyRows(np, vpp, row) && row[np] <= len(ps) && (forall i int :: {row[i]} 0 <= i && i < np ==> polyListed(ps, nverts, vpp, row, nv, i)) && (forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < np && 0 <= j && j < nv[i] ==> sideListed(ps, nverts, vpp, row, nv, src, dst, i, j))
//@ pred edgesOnce(np int, nverts int, row seq int, nv seq int, src seq int, dst seq int, polyOf seq int, sideOf seq int) = (forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < np && 0 <= j && j < nv[i] ==> edgeKnown(row, src, dst, polyOf, sideOf, i, j)) && (forall a int, b int :: {polyOf[edgeKey(a, b)]} 0 <= a && a < nverts && 0 <= b && b < nverts ==> keyOK(np, row, nv, src, dst, a, b, polyOf[edgeKey(a, b)], sideOf[edgeKey(a, b)]))
//@ fn upSide(src seq int, dst seq int, s int) int = src[s] < dst[s] ? 1 : 0
//@ pred sideNumbered(row seq int, src seq int, dst seq int, num seq int, eP seq int, eS seq int, i int, j int) = num[row[i]+j+1] == num[sideSlot(row[i], j)] + upSide(src, dst, sideSlot(row[i], j)) && 0 <= num[sideSlot(row[i], j)] && 2*num[sideSlot(row[i], j)] <= row[i] + 2*j && (src[sideSlot(row[i], j)] < dst[sideSlot(row[i], j)] ==> eP[num[sideSlot(row[i], j)]] == i && eS[num[sideSlot(row[i], j)]] == j)
//@ pred edgeNumbered(np int, row seq int, nv seq int, src seq int, dst seq int, num seq int, eP seq int, eS seq int, e int) = 0 <= eP[e] && eP[e] < np && 0 <= eS[e] && eS[e] < nv[eP[e]] && src[sideSlot(row[eP[e]], eS[e])] < dst[sideSlot(row[eP[e]], eS[e])] && num[sideSlot(row[eP[e]], eS[e])] == e
//@ pred numberedSides(np int, row seq int, nv seq int, src seq int, dst seq int, num seq int, eP seq int, eS seq int) = num[sideSlot(row[0], 0)] == 0 && 0 <= num[sideSlot(row[np], 0)] && (forall i int :: {nv[i]} 0 <= i && i < np ==> num[sideSlot(row[i+1], 0)] == num[sideSlot(row[i], nv[i])]) && (forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < np && 0 <= j && j < nv[i] ==> sideNumbered(row, src, dst, num, eP, eS, i, j)) && (forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < np && 0 <= j && j < nv[i] && src[sideSlot(row[i], j)] < dst[sideSlot(row[i], j)] ==> num[sideSlot(row[i], j)] < num[sideSlot(row[np], 0)]) && (forall e int :: {eP[e]} 0 <= e && e < num[sideSlot(row[np], 0)] ==> edgeNumbered(np, row, nv, src, dst, num, eP, eS, e))

// the polygon across a side, and the number of the edge both share
//@ fn acrossP(src seq int, dst seq int, polyOf seq int, s int) int = polyOf[edgeKey(dst[s], src[s])]
//@ fn wantedNb(src seq int, dst seq int, polyOf seq int, i int, s int) int = acrossP(src, dst, polyOf, s) == -1 || acrossP(src, dst, polyOf, s) == i ? 65535 : acrossP(src, dst, polyOf, s)
//@ fn edgeNo(row seq int, src seq int, dst seq int, polyOf seq int, sideOf seq int, num seq int, s int) int = src[s] < dst[s] ? num[s] : num[sideSlot(row[polyOf[edgeKey(dst[s], src[s])]], sideOf[edgeKey(dst[s], src[s])])]

//@ fn lowOf(row seq int, src seq int, eP seq int, eS seq int, e int) int = src[sideSlot(row[eP[e]], eS[e])]
//@ pred edgeRec(e *Edge, row seq int, src seq int, dst seq int, eP seq int, eS seq int, k int) = e.vert[0] == src[sideSlot(row[eP[k]], eS[k])] && e.vert[1] == dst[sideSlot(row[eP[k]], eS[k])] && e.poly[0] == eP[k] && e.polyEdge[0] == eS[k]
//@ pred edgesApart(edges []*Edge) = forall a int, b int :: {edges[a], edges[b]} 0 <= a && a < b && b < len(edges) ==> edges[a] != edges[b]
//@ pred chainsOK(fe []int32, nx []int32, nverts int, n int, row seq int, src seq int, eP seq int, eS seq int) = (forall v int :: {fe[v]} 0 <= v && v < nverts ==> fe[v] == -1 || 0 <= fe[v] && fe[v] < n && lowOf(row, src, eP, eS, fe[v]) == v) && (forall e int :: {nx[e]} 0 <= e && e < n ==> nx[e] == -1 || 0 <= nx[e] && nx[e] < e && lowOf(row, src, eP, eS, nx[e]) == lowOf(row, src, eP, eS, e)) && (forall e int :: {eP[e]} 0 <= e && e < n ==> e <= fe[lowOf(row, src, eP, eS, e)]) && (forall e int, k int :: {nx[k], eP[e]} 0 <= e && e < k && k < n && lowOf(row, src, eP, eS, e) == lowOf(row, src, eP, eS, k) ==> e <= nx[k])

// sides before side j of polygon i have been looked up
//@ pred before2(p int, s int, i int, j int) = p < i || p == i && s < j
//@ pred edgeMet(e *Edge, row seq int, src seq int, dst seq int, polyOf seq int, sideOf seq int, eP seq int, eS seq int, k int, i int, j int) = acrossP(src, dst, polyOf, sideSlot(row[eP[k]], eS[k])) != -1 && before2(acrossP(src, dst, polyOf, sideSlot(row[eP[k]], eS[k])), sideOf[edgeKey(dst[sideSlot(row[eP[k]], eS[k])], src[sideSlot(row[eP[k]], eS[k])])], i, j) ? e.poly[1] == acrossP(src, dst, polyOf, sideSlot(row[eP[k]], eS[k])) && e.polyEdge[1] == sideOf[edgeKey(dst[sideSlot(row[eP[k]], eS[k])], src[sideSlot(row[eP[k]], eS[k])])] : e.poly[1] == e.poly[0]

//@ pred revOK(np int, row seq int, nv seq int, src seq int, dst seq int, polyOf seq int, sideOf seq int, eP seq int, eS seq int, k int) = keyOK(np, row, nv, src, dst, dst[sideSlot(row[eP[k]], eS[k])], src[sideSlot(row[eP[k]], eS[k])], acrossP(src, dst, polyOf, sideSlot(row[eP[k]], eS[k])), sideOf[edgeKey(dst[sideSlot(row[eP[k]], eS[k])], src[sideSlot(row[eP[k]], eS[k])])])
//@ pred edgeSides(np int, nverts int, row seq int, nv seq int, src seq int, dst seq int, polyOf seq int, sideOf seq int, num seq int, eP seq int, eS seq int, n int) = forall k int :: {eP[k]} 0 <= k && k < n ==> edgeNumbered(np, row, nv, src, dst, num, eP, eS, k) && edgeKnown(row, src, dst, polyOf, sideOf, eP[k], eS[k]) && 0 <= lowOf(row, src, eP, eS, k) && lowOf(row, src, eP, eS, k) < nverts && revOK(np, row, nv, src, dst, polyOf, sideOf, eP, eS, k)
//@ pred paired(np int, row seq int, nv seq int, src seq int, dst seq int, polyOf seq int, sideOf seq int, num seq int, eP seq int, eS seq int, p int, k int) = src[sideSlot(row[p], k)] < dst[sideSlot(row[p], k)] ? eP[edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k))] == p && eS[edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k))] == k : acrossP(src, dst, polyOf, sideSlot(row[p], k)) == eP[edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k))] && src[sideSlot(row[p], k)] == dst[sideSlot(row[eP[edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k))]], eS[edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k))])] && dst[sideSlot(row[p], k)] == src[sideSlot(row[eP[edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k))]], eS[edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k))])]

//@ func recast.buildMeshAdjacency
//@ property C25
//@ use sideSlotIs
//@ gparam row seq int
//@ gparam nv seq int
//@ gparam src seq int
//@ gparam dst seq int
//@ gparam polyOf seq int
//@ gparam sideOf seq int
//@ gparam num seq int
//@ gparam eP seq int
//@ gparam eS seq int
//@ requires polysOK(polys, npolys, nverts, vertsPerPoly, row, nv, src, dst) && edgesOnce(npolys, nverts, row, nv, src, dst, polyOf, sideOf) && numberedSides(npolys, row, nv, src, dst, num, eP, eS)
//@ ensures result
//@ ensures forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < npolys && 0 <= j && j < nv[i] ==> polys[row[i]+j] == src[sideSlot(row[i], j)] && polys[row[i]+vertsPerPoly+j] == wantedNb(src, dst, polyOf, i, sideSlot(row[i], j))
//@ exitassert forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < npolys && 0 <= j && j < nv[i] ==> polys[row[i]+j] == src[sideSlot(row[i], j)]
//@ exitassert forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < npolys && 0 <= j && j < nv[i] && (acrossP(src, dst, polyOf, sideSlot(row[i], j)) == -1 || acrossP(src, dst, polyOf, sideSlot(row[i], j)) == i) ==> polys[row[i]+vertsPerPoly+j] == 65535
//@ exitassert forall i int, j int :: {sideSlot(row[i], j)} 0 <= i && i < npolys && 0 <= j && j < nv[i] && acrossP(src, dst, polyOf, sideSlot(row[i], j)) != -1 && acrossP(src, dst, polyOf, sideSlot(row[i], j)) != i ==> polys[row[i]+vertsPerPoly+j] == acrossP(src, dst, polyOf, sideSlot(row[i], j))
//@ modifies polys[*]
//@ loop 1
//@ invariant forall a int, b int :: {edges[a], edges[b]} 0 <= a && a < b && b < $i ==> edges[a] != edges[b]
//@ invariant forall a int :: {edges[a]} 0 <= a && a < $i ==> edges[a] != nil && allocated(edges[a]) && fresh(edges[a])
//@ loop 2
//@ invariant 0 <= i && i <= nverts
//@ invariant forall v int :: {firstEdge[v]} 0 <= v && v < i ==> firstEdge[v] == -1
//@ decreases nverts - i
//@ loop 3
//@ invariant forall s int :: {polys[s]} 0 <= s && s < len(polys) ==> polys[s] == old(polys[s])
//@ invariant 0 <= i && i <= npolys && edgeCount == num[sideSlot(row[i], 0)] && 0 <= edgeCount && 2*edgeCount <= row[i]
//@ invariant forall k int :: {edges[k]} 0 <= k && k < edgeCount ==> edgeRec(edges[k], row, src, dst, eP, eS, k) && edges[k].poly[1] == edges[k].poly[0]
//@ invariant edgeCount <= num[sideSlot(row[npolys], 0)] && edgeSides(npolys, nverts, row, nv, src, dst, polyOf, sideOf, num, eP, eS, edgeCount)
//@ invariant chainsOK(firstEdge, nextEdge, nverts, edgeCount, row, src, eP, eS)
//@ invariant edgesApart(edges) && (forall a int :: {edges[a]} 0 <= a && a < len(edges) ==> edges[a] != nil && allocated(edges[a]) && fresh(edges[a]))
//@ decreases npolys - i
//@ loop 4
//@ keep
//@ invariant forall s int :: {polys[s]} 0 <= s && s < len(polys) ==> polys[s] == old(polys[s])
//@ invariant 0 <= j && j <= nv[i] && edgeCount == num[sideSlot(row[i], j)] && 0 <= edgeCount && 2*edgeCount <= row[i] + 2*j
//@ invariant forall k int :: {edges[k]} 0 <= k && k < edgeCount ==> edgeRec(edges[k], row, src, dst, eP, eS, k) && edges[k].poly[1] == edges[k].poly[0]
//@ invariant edgeCount <= num[sideSlot(row[npolys], 0)] && edgeSides(npolys, nverts, row, nv, src, dst, polyOf, sideOf, num, eP, eS, edgeCount)
//@ invariant chainsOK(firstEdge, nextEdge, nverts, edgeCount, row, src, eP, eS)
//@ assert j < nv[i] ==> src[sideSlot(row[i], j)] >= 0 && sideListed(polys, nverts, vertsPerPoly, row, nv, src, dst, i, j) && sideNumbered(row, src, dst, num, eP, eS, i, j)
//@ assert j + 1 < nv[i] ==> src[sideSlot(row[i], j+1)] >= 0 && polys[row[i]+j+1] == src[sideSlot(row[i], j+1)]
//@ assert src[sideSlot(row[i], 0)] >= 0 && polys[row[i]] == src[sideSlot(row[i], 0)]
//@ assert num[sideSlot(row[i], j+1)] == num[row[i]+j+1]
//@ assert j == nv[i] && j < vertsPerPoly ==> polys[row[i]+j] == 65535
//@ assert j + 1 == nv[i] && j + 1 < vertsPerPoly ==> polys[row[i]+j+1] == 65535
//@ assert j < vertsPerPoly && polys[row[i]+j] != 65535 ==> j < nv[i]
//@ assert j < nv[i] ==> (j+1 >= vertsPerPoly || polys[row[i]+j+1] == 65535 ? dst[sideSlot(row[i], j)] == polys[row[i]] : dst[sideSlot(row[i], j)] == polys[row[i]+j+1])
//@ endassert v0 == src[sideSlot(row[i], j)] && v1 == dst[sideSlot(row[i], j)] && j < nv[i]
//@ endassert edgeCount == num[sideSlot(row[i], j+1)]
//@ invariant edgesApart(edges) && (forall a int :: {edges[a]} 0 <= a && a < len(edges) ==> edges[a] != nil && allocated(edges[a]) && fresh(edges[a]))
//@ decreases vertsPerPoly - j
//@ loop 5
//@ invariant forall s int :: {polys[s]} 0 <= s && s < len(polys) ==> polys[s] == old(polys[s])
//@ invariant 0 <= i && i <= npolys
//@ invariant edgeSides(npolys, nverts, row, nv, src, dst, polyOf, sideOf, num, eP, eS, edgeCount)
//@ invariant forall k int :: {edges[k]} 0 <= k && k < edgeCount ==> edgeRec(edges[k], row, src, dst, eP, eS, k) && edgeMet(edges[k], row, src, dst, polyOf, sideOf, eP, eS, k, i, 0)
//@ decreases npolys - i
//@ loop 6
//@ keep
//@ invariant forall s int :: {polys[s]} 0 <= s && s < len(polys) ==> polys[s] == old(polys[s])
//@ invariant 0 <= j && j <= nv[i]
//@ invariant edgeSides(npolys, nverts, row, nv, src, dst, polyOf, sideOf, num, eP, eS, edgeCount)
//@ invariant forall k int :: {edges[k]} 0 <= k && k < edgeCount ==> edgeRec(edges[k], row, src, dst, eP, eS, k) && edgeMet(edges[k], row, src, dst, polyOf, sideOf, eP, eS, k, i, j)
//@ assert j < nv[i] ==> src[sideSlot(row[i], j)] >= 0 && sideListed(polys, nverts, vertsPerPoly, row, nv, src, dst, i, j) && edgeKnown(row, src, dst, polyOf, sideOf, i, j)
//@ assert j + 1 < nv[i] ==> src[sideSlot(row[i], j+1)] >= 0 && polys[row[i]+j+1] == src[sideSlot(row[i], j+1)]
//@ assert j < nv[i] ==> keyOK(npolys, row, nv, src, dst, dst[sideSlot(row[i], j)], src[sideSlot(row[i], j)], polyOf[edgeKey(dst[sideSlot(row[i], j)], src[sideSlot(row[i], j)])], sideOf[edgeKey(dst[sideSlot(row[i], j)], src[sideSlot(row[i], j)])])
//@ assert src[sideSlot(row[i], 0)] >= 0 && polys[row[i]] == src[sideSlot(row[i], 0)]
//@ assert j == nv[i] && j < vertsPerPoly ==> polys[row[i]+j] == 65535
//@ assert j + 1 == nv[i] && j + 1 < vertsPerPoly ==> polys[row[i]+j+1] == 65535
//@ assert j < vertsPerPoly && polys[row[i]+j] != 65535 ==> j < nv[i]
//@ assert j < nv[i] ==> (j+1 >= vertsPerPoly || polys[row[i]+j+1] == 65535 ? dst[sideSlot(row[i], j)] == polys[row[i]] : dst[sideSlot(row[i], j)] == polys[row[i]+j+1])
//@ endassert v0 == src[sideSlot(row[i], j)] && v1 == dst[sideSlot(row[i], j)] && j < nv[i]
//@ assert forall k int :: {edges[k]} 0 <= k && k < edgeCount && acrossP(src, dst, polyOf, sideSlot(row[eP[k]], eS[k])) == i && sideOf[edgeKey(dst[sideSlot(row[eP[k]], eS[k])], src[sideSlot(row[eP[k]], eS[k])])] == j ==> src[sideSlot(row[i], j)] == dst[sideSlot(row[eP[k]], eS[k])] && dst[sideSlot(row[i], j)] == lowOf(row, src, eP, eS, k)
//@ decreases vertsPerPoly - j
//@ loop 7
//@ invariant v0 == src[sideSlot(row[i], j)] && v1 == dst[sideSlot(row[i], j)] && 0 <= j && j < nv[i]
//@ invariant e == -1 || 0 <= e && e < edgeCount && lowOf(row, src, eP, eS, e) == v1
//@ invariant forall k int :: {eP[k]} e < k && k < edgeCount && lowOf(row, src, eP, eS, k) == v1 ==> dst[sideSlot(row[eP[k]], eS[k])] != v0
//@ invariant edgeSides(npolys, nverts, row, nv, src, dst, polyOf, sideOf, num, eP, eS, edgeCount)
//@ invariant forall k int :: {edges[k]} 0 <= k && k < edgeCount ==> edgeRec(edges[k], row, src, dst, eP, eS, k) && edgeMet(edges[k], row, src, dst, polyOf, sideOf, eP, eS, k, i, j)
//@ assert edgeNumbered(npolys, row, nv, src, dst, num, eP, eS, e) && edgeKnown(row, src, dst, polyOf, sideOf, eP[e], eS[e])
//@ decreases e + 1
//@ loop 8
//@ invariant 0 <= i && i <= edgeCount
//@ invariant edgeSides(npolys, nverts, row, nv, src, dst, polyOf, sideOf, num, eP, eS, edgeCount)
//@ invariant forall k int :: {edges[k]} 0 <= k && k < edgeCount ==> edgeRec(edges[k], row, src, dst, eP, eS, k) && edgeMet(edges[k], row, src, dst, polyOf, sideOf, eP, eS, k, npolys, 0)
//@ invariant forall p int, k int :: {sideSlot(row[p], k)} 0 <= p && p < npolys && 0 <= k && k < nv[p] ==> polys[row[p]+k] == src[sideSlot(row[p], k)]
//@ invariant forall p int, k int :: {sideSlot(row[p], k)} 0 <= p && p < npolys && 0 <= k && k < nv[p] ==> polys[row[p]+vertsPerPoly+k] == (acrossP(src, dst, polyOf, sideSlot(row[p], k)) != -1 && acrossP(src, dst, polyOf, sideSlot(row[p], k)) != p && edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k)) < i ? acrossP(src, dst, polyOf, sideSlot(row[p], k)) : 65535)
//@ invariant forall p int, k int :: {sideSlot(row[p], k)} 0 <= p && p < npolys && 0 <= k && k < nv[p] && acrossP(src, dst, polyOf, sideSlot(row[p], k)) != -1 && acrossP(src, dst, polyOf, sideSlot(row[p], k)) != p ==> 0 <= edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k)) && edgeNo(row, src, dst, polyOf, sideOf, num, sideSlot(row[p], k)) < edgeCount && paired(npolys, row, nv, src, dst, polyOf, sideOf, num, eP, eS, p, k)
//@ assert edgeNumbered(npolys, row, nv, src, dst, num, eP, eS, i) && edgeKnown(row, src, dst, polyOf, sideOf, eP[i], eS[i])
//@ assert edgeRec(edges[i], row, src, dst, eP, eS, i) && edgeMet(edges[i], row, src, dst, polyOf, sideOf, eP, eS, i, npolys, 0)
//@ decreases edgeCount - i
