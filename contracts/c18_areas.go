//go:build verif_contracts

package contracts

// C18: erosion and convex-volume marking. gx[i], gy[i]: the column span i
// belongs to, as in c17.

//@ package recast

// n0[i] .. n3[i]: the span link 0 .. 3 of span i leads to

//@ fn linked4(chf *CompactHeightfield, i int, d int32) bool = conBits(chf.Spans[i].Con, d) != 63
//@ pred linkTarget(chf *CompactHeightfield, c int, i int, d int32, n seq int) = 0 <= c && c < len(chf.Cells) && n[i] == int(chf.Cells[c].Index) + conBits(chf.Spans[i].Con, d) && conBits(chf.Spans[i].Con, d) < chf.Cells[c].Count && 0 <= n[i] && n[i] < chf.SpanCount
//@ pred linkIn(chf *CompactHeightfield, gx seq int, gy seq int, i int, d int32, dx int, dy int, n seq int) = linked4(chf, i, d) ==> 0 <= gx[i]+dx && gx[i]+dx < chf.Width && 0 <= gy[i]+dy && gy[i]+dy < chf.Height && linkTarget(chf, gx[i]+dx+(gy[i]+dy)*chf.Width, i, d, n) && gx[n[i]] == gx[i]+dx && gy[n[i]] == gy[i]+dy
//@ pred compactShape(chf *CompactHeightfield) = 0 <= chf.Width && 0 <= chf.Height && chf.Width*chf.Height == len(chf.Cells) && len(chf.Cells) <= 2147483647 && chf.SpanCount == len(chf.Spans) && chf.SpanCount == len(chf.Areas) && (forall c int :: {&chf.Cells[c]} 0 <= c && c < len(chf.Cells) ==> int(chf.Cells[c].Index) + int(chf.Cells[c].Count) <= chf.SpanCount)
//@ pred spanPlaced(chf *CompactHeightfield, gx seq int, gy seq int, row seq int, i int) = 0 <= gx[i] && gx[i] < chf.Width && 0 <= gy[i] && gy[i] < chf.Height && 0 <= gx[i]+row[gy[i]] && gx[i]+row[gy[i]] < len(chf.Cells) && chf.Cells[gx[i]+row[gy[i]]].Index <= i && i < int(chf.Cells[gx[i]+row[gy[i]]].Index) + int(chf.Cells[gx[i]+row[gy[i]]].Count)
//@ pred rows(w int, h int, row seq int) = (forall y int :: {row[y]} 0 <= y && y <= h ==> row[y] == y*w) && (forall a int, b int :: {row[a], row[b]} 0 <= a && a < b && b <= h ==> row[a] + w <= row[b])
//@ pred compactOK(chf *CompactHeightfield, gx seq int, gy seq int, row seq int, n0 seq int, n1 seq int, n2 seq int, n3 seq int) = compactShape(chf) && rows(chf.Width, chf.Height, row) && (forall i int :: {gx[i]} 0 <= i && i < chf.SpanCount ==> spanPlaced(chf, gx, gy, row, i)) && (forall c int, i int :: {&chf.Cells[c], gx[i]} 0 <= c && c < len(chf.Cells) && chf.Cells[c].Index <= i && i < int(chf.Cells[c].Index) + int(chf.Cells[c].Count) ==> gx[i] + row[gy[i]] == c)
//@   && (forall i int :: {n0[i]} 0 <= i && i < chf.SpanCount ==> linkIn(chf, gx, gy, i, 0, 0-1, 0, n0)) && (forall i int :: {n1[i]} 0 <= i && i < chf.SpanCount ==> linkIn(chf, gx, gy, i, 1, 0, 1, n1)) && (forall i int :: {n2[i]} 0 <= i && i < chf.SpanCount ==> linkIn(chf, gx, gy, i, 2, 1, 0, n2)) && (forall i int :: {n3[i]} 0 <= i && i < chf.SpanCount ==> linkIn(chf, gx, gy, i, 3, 0, 0-1, n3))

// a span is at the border if it is unwalkable or misses a walkable neighbour
//@ pred goodSide(chf *CompactHeightfield, i int, d int32, n seq int) = linked4(chf, i, d) && chf.Areas[n[i]] != 0
//@ pred atBorder(chf *CompactHeightfield, n0 seq int, n1 seq int, n2 seq int, n3 seq int, i int) = chf.Areas[i] == 0 || !(goodSide(chf, i, 0, n0) && goodSide(chf, i, 1, n1) && goodSide(chf, i, 2, n2) && goodSide(chf, i, 3, n3))

// D never overestimates the distance to the border (2 per straight, 3 per diagonal step)
//@ pred under2(chf *CompactHeightfield, D seq int, i int, d int32, n seq int) = linked4(chf, i, d) ==> D[i] <= D[n[i]] + 2
//@ pred under3(chf *CompactHeightfield, D seq int, i int, d int32, n seq int, e int32, m seq int) = linked4(chf, i, d) && linked4(chf, n[i], e) ==> D[i] <= D[m[n[i]]] + 3
//@ pred under(chf *CompactHeightfield, n0 seq int, n1 seq int, n2 seq int, n3 seq int, D seq int, i int) = 0 <= D[i] && (atBorder(chf, n0, n1, n2, n3, i) ==> D[i] == 0) && under2(chf, D, i, 0, n0) && under2(chf, D, i, 1, n1) && under2(chf, D, i, 2, n2) && under2(chf, D, i, 3, n3) && under3(chf, D, i, 0, n0, 3, n3) && under3(chf, D, i, 3, n3, 2, n2) && under3(chf, D, i, 2, n2, 1, n1) && under3(chf, D, i, 1, n1, 0, n0)

// P and F each give a walk to the border no longer than themselves: F steps
// towards growing columns as long as it likes, then P towards lower columns
//@ pred over2(chf *CompactHeightfield, U seq int, i int, d int32, n seq int) = linked4(chf, i, d) && U[n[i]] + 2 <= U[i]
//@ pred over3(chf *CompactHeightfield, U seq int, i int, d int32, n seq int, e int32, m seq int) = linked4(chf, i, d) && linked4(chf, n[i], e) && U[m[n[i]]] + 3 <= U[i]
//@ pred overBack(chf *CompactHeightfield, n0 seq int, n1 seq int, n2 seq int, n3 seq int, P seq int, i int) = 0 <= P[i] && (atBorder(chf, n0, n1, n2, n3, i) || 255 <= P[i] || over2(chf, P, i, 0, n0) || over2(chf, P, i, 3, n3) || over3(chf, P, i, 0, n0, 3, n3) || over3(chf, P, i, 3, n3, 2, n2))
//@ pred overFwd(chf *CompactHeightfield, n0 seq int, n1 seq int, n2 seq int, n3 seq int, P seq int, F seq int, i int) = P[i] <= F[i] || over2(chf, F, i, 2, n2) || over2(chf, F, i, 1, n1) || over3(chf, F, i, 2, n2, 1, n1) || over3(chf, F, i, 1, n1, 0, n0)

//@ func recast.ErodeWalkableArea
//@ property C18
//@ gparam gx seq int
//@ gparam gy seq int
//@ gparam row seq int
//@ gparam n0 seq int
//@ gparam n1 seq int
//@ gparam n2 seq int
//@ gparam n3 seq int
//@ gparam D seq int
//@ gparam P seq int
//@ gparam F seq int
//@ gparam at seq int
//@ note at is zero everywhere; it only names the spans at which the rules for D, P and F are needed
//@ requires ctxOK(ctx) && chf != nil && compactOK(chf, gx, gy, row, n0, n1, n2, n3) && 0 <= radius && radius <= 127
//@ requires forall i int :: {at[i]} 0 <= i && i < chf.SpanCount ==> at[i] == 0 && under(chf, n0, n1, n2, n3, D, i) && overBack(chf, n0, n1, n2, n3, P, i) && overFwd(chf, n0, n1, n2, n3, P, F, i)
//@ ensures result
//@ ensures forall i int :: {chf.Areas[i]} 0 <= i && i < chf.SpanCount ==> chf.Areas[i] == 0 || chf.Areas[i] == old(chf.Areas[i])
//@ ensures forall i int :: {chf.Areas[i]} 0 <= i && i < chf.SpanCount && D[i] >= 2*radius ==> chf.Areas[i] == old(chf.Areas[i])
//@ ensures forall i int :: {chf.Areas[i]} 0 <= i && i < chf.SpanCount && F[i] < 2*radius ==> chf.Areas[i] == 0
//@ modifies chf.Areas[*], ctx.startTime[*], ctx.accTime[*]
//@ loop 1
//@ invariant forall k int :: {dist[k]} 0 <= k && k < $i ==> dist[k] == 255
//@ loop 2
//@ invariant 0 <= y && y <= h && w == chf.Width && h == chf.Height
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] == 255 || dist[k] == 0 && atBorder(chf, n0, n1, n2, n3, k)
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && gy[k] < y && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ decreases h - y
//@ loop 3
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] == 255 || dist[k] == 0 && atBorder(chf, n0, n1, n2, n3, k)
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && (gy[k] < y || gy[k] == y && gx[k] < x) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ assert row[y] == y*w
//@ decreases w - x
//@ loop 4
//@ invariant c.Index <= i && i <= ni && ni == int(c.Index) + int(c.Count)
//@ invariant forall k int :: {gx[k]} 0 <= k && k < chf.SpanCount && gx[k] == x && gy[k] == y ==> c.Index <= k && k < ni
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] == 255 || dist[k] == 0 && atBorder(chf, n0, n1, n2, n3, k)
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && (gy[k] < y || gy[k] == y && gx[k] < x) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ invariant forall k int :: {gx[k]} c.Index <= k && k < i && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ assert 0 <= i && i < chf.SpanCount && spanPlaced(chf, gx, gy, row, i) && gx[i]+row[gy[i]] == x+y*w
//@ assert row[y] == y*w
//@ assert gx[i] == x && gy[i] == y
//@ assert linkIn(chf, gx, gy, i, 0, 0-1, 0, n0) && linkIn(chf, gx, gy, i, 1, 0, 1, n1) && linkIn(chf, gx, gy, i, 2, 1, 0, n2) && linkIn(chf, gx, gy, i, 3, 0, 0-1, n3)
//@ decreases ni - i
//@ loop 5
//@ keep
//@ invariant 0 <= dir && dir <= 4 && 0 <= nc && nc <= dir
//@ invariant (nc == dir) == ((dir > 0 ==> goodSide(chf, i, 0, n0)) && (dir > 1 ==> goodSide(chf, i, 1, n1)) && (dir > 2 ==> goodSide(chf, i, 2, n2)) && (dir > 3 ==> goodSide(chf, i, 3, n3)))
//@ decreases 4 - dir
//@ loop 6
//@ invariant 0 <= y && y <= h
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] >= min(D[k], 255)
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && gy[k] < y ==> dist[k] <= P[k]
//@ decreases h - y
//@ loop 7
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] >= min(D[k], 255)
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && (gy[k] < y || gy[k] == y && gx[k] < x) ==> dist[k] <= P[k]
//@ assert row[y] == y*w
//@ decreases w - x
//@ loop 8
//@ invariant c.Index <= i && i <= ni && ni == int(c.Index) + int(c.Count)
//@ invariant forall k int :: {gx[k]} 0 <= k && k < chf.SpanCount && gx[k] == x && gy[k] == y ==> c.Index <= k && k < ni
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] >= min(D[k], 255)
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && (gy[k] < y || gy[k] == y && gx[k] < x) ==> dist[k] <= P[k]
//@ invariant forall k int :: {gx[k]} c.Index <= k && k < i ==> dist[k] <= P[k]
//@ assert 0 <= i && i < chf.SpanCount && spanPlaced(chf, gx, gy, row, i) && gx[i]+row[gy[i]] == x+y*w
//@ assert row[y] == y*w
//@ assert gx[i] == x && gy[i] == y
//@ assert linkIn(chf, gx, gy, i, 0, 0-1, 0, n0)
//@ assert linked4(chf, i, 0) ==> linkIn(chf, gx, gy, n0[i], 3, 0, 0-1, n3)
//@ assert linkIn(chf, gx, gy, i, 3, 0, 0-1, n3)
//@ assert linked4(chf, i, 3) ==> linkIn(chf, gx, gy, n3[i], 2, 1, 0, n2)
//@ assert linked4(chf, i, 0) ==> n0[i] == int(chf.Cells[x+(0-1)+(y+(0))*w].Index) + conBits(chf.Spans[i].Con, 0)
//@ assert linked4(chf, i, 0) && linked4(chf, n0[i], 3) ==> n3[n0[i]] == int(chf.Cells[x+(0-1)+(y+(0-1))*w].Index) + conBits(chf.Spans[n0[i]].Con, 3)
//@ assert linked4(chf, i, 3) ==> n3[i] == int(chf.Cells[x+(0)+(y+(0-1))*w].Index) + conBits(chf.Spans[i].Con, 3)
//@ assert linked4(chf, i, 3) && linked4(chf, n3[i], 2) ==> n2[n3[i]] == int(chf.Cells[x+(1)+(y+(0-1))*w].Index) + conBits(chf.Spans[n3[i]].Con, 2)
//@ assert at[i] == 0
//@ assert under(chf, n0, n1, n2, n3, D, i) && overBack(chf, n0, n1, n2, n3, P, i)
//@ endassert dist[i] <= iter(dist[i])
//@ endassert linked4(chf, i, 0) ==> dist[i] <= min(255, int(iter(dist[n0[i]])) + 2) && n0[i] != i
//@ endassert linked4(chf, i, 0) && linked4(chf, n0[i], 3) ==> dist[i] <= min(255, int(iter(dist[n3[n0[i]]])) + 3) && n3[n0[i]] != i
//@ endassert linked4(chf, i, 0) ==> iter(dist[n0[i]]) <= P[n0[i]] && iter(dist[n0[i]]) >= min(255, D[n0[i]])
//@ endassert linked4(chf, i, 0) && linked4(chf, n0[i], 3) ==> iter(dist[n3[n0[i]]]) <= P[n3[n0[i]]] && iter(dist[n3[n0[i]]]) >= min(255, D[n3[n0[i]]])
//@ endassert linked4(chf, i, 3) ==> dist[i] <= min(255, int(iter(dist[n3[i]])) + 2) && n3[i] != i
//@ endassert linked4(chf, i, 3) && linked4(chf, n3[i], 2) ==> dist[i] <= min(255, int(iter(dist[n2[n3[i]]])) + 3) && n2[n3[i]] != i
//@ endassert linked4(chf, i, 3) ==> iter(dist[n3[i]]) <= P[n3[i]] && iter(dist[n3[i]]) >= min(255, D[n3[i]])
//@ endassert linked4(chf, i, 3) && linked4(chf, n3[i], 2) ==> iter(dist[n2[n3[i]]]) <= P[n2[n3[i]]] && iter(dist[n2[n3[i]]]) >= min(255, D[n2[n3[i]]])
//@ endassert forall k int :: {dist[k]} 0 <= k && k < len(dist) && k != i ==> dist[k] == iter(dist[k])
//@ endassert dist[i] == iter(dist[i]) || linked4(chf, i, 0) && dist[i] == min(255, int(iter(dist[n0[i]])) + 2) || linked4(chf, i, 0) && linked4(chf, n0[i], 3) && dist[i] == min(255, int(iter(dist[n3[n0[i]]])) + 3) || linked4(chf, i, 3) && dist[i] == min(255, int(iter(dist[n3[i]])) + 2) || linked4(chf, i, 3) && linked4(chf, n3[i], 2) && dist[i] == min(255, int(iter(dist[n2[n3[i]]])) + 3)
//@ endassert dist[i] >= min(D[i], 255)
//@ endassert dist[i] <= P[i]
//@ decreases ni - i
//@ loop 9
//@ invariant 0-1 <= y && y < h
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] >= min(D[k], 255)
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) ==> dist[k] <= P[k]
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && gy[k] > y ==> dist[k] <= F[k]
//@ decreases y + 1
//@ loop 10
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0-1 <= x && x < w
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] >= min(D[k], 255)
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) ==> dist[k] <= P[k]
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && (gy[k] > y || gy[k] == y && gx[k] > x) ==> dist[k] <= F[k]
//@ assert row[y] == y*w
//@ decreases x + 1
//@ loop 11
//@ invariant c.Index <= i && i <= ni && ni == int(c.Index) + int(c.Count)
//@ invariant forall k int :: {gx[k]} 0 <= k && k < chf.SpanCount && gx[k] == x && gy[k] == y ==> c.Index <= k && k < ni
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) ==> dist[k] >= min(D[k], 255)
//@ invariant forall k int :: {dist[k]} 0 <= k && k < len(dist) && atBorder(chf, n0, n1, n2, n3, k) ==> dist[k] == 0
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) ==> dist[k] <= P[k]
//@ invariant forall k int :: {gx[k]} 0 <= k && k < len(dist) && (gy[k] > y || gy[k] == y && gx[k] > x) ==> dist[k] <= F[k]
//@ invariant forall k int :: {gx[k]} c.Index <= k && k < i ==> dist[k] <= F[k]
//@ assert 0 <= i && i < chf.SpanCount && spanPlaced(chf, gx, gy, row, i) && gx[i]+row[gy[i]] == x+y*w
//@ assert row[y] == y*w
//@ assert gx[i] == x && gy[i] == y
//@ assert linkIn(chf, gx, gy, i, 2, 1, 0, n2)
//@ assert linked4(chf, i, 2) ==> linkIn(chf, gx, gy, n2[i], 1, 0, 1, n1)
//@ assert linkIn(chf, gx, gy, i, 1, 0, 1, n1)
//@ assert linked4(chf, i, 1) ==> linkIn(chf, gx, gy, n1[i], 0, 0-1, 0, n0)
//@ assert linked4(chf, i, 2) ==> n2[i] == int(chf.Cells[x+(1)+(y+(0))*w].Index) + conBits(chf.Spans[i].Con, 2)
//@ assert linked4(chf, i, 2) && linked4(chf, n2[i], 1) ==> n1[n2[i]] == int(chf.Cells[x+(1)+(y+(1))*w].Index) + conBits(chf.Spans[n2[i]].Con, 1)
//@ assert linked4(chf, i, 1) ==> n1[i] == int(chf.Cells[x+(0)+(y+(1))*w].Index) + conBits(chf.Spans[i].Con, 1)
//@ assert linked4(chf, i, 1) && linked4(chf, n1[i], 0) ==> n0[n1[i]] == int(chf.Cells[x+(0-1)+(y+(1))*w].Index) + conBits(chf.Spans[n1[i]].Con, 0)
//@ assert at[i] == 0
//@ assert under(chf, n0, n1, n2, n3, D, i) && overFwd(chf, n0, n1, n2, n3, P, F, i)
//@ endassert dist[i] <= iter(dist[i])
//@ endassert linked4(chf, i, 2) ==> dist[i] <= min(255, int(iter(dist[n2[i]])) + 2) && n2[i] != i
//@ endassert linked4(chf, i, 2) && linked4(chf, n2[i], 1) ==> dist[i] <= min(255, int(iter(dist[n1[n2[i]]])) + 3) && n1[n2[i]] != i
//@ endassert linked4(chf, i, 2) ==> iter(dist[n2[i]]) <= F[n2[i]] && iter(dist[n2[i]]) >= min(255, D[n2[i]])
//@ endassert linked4(chf, i, 2) && linked4(chf, n2[i], 1) ==> iter(dist[n1[n2[i]]]) <= F[n1[n2[i]]] && iter(dist[n1[n2[i]]]) >= min(255, D[n1[n2[i]]])
//@ endassert linked4(chf, i, 1) ==> dist[i] <= min(255, int(iter(dist[n1[i]])) + 2) && n1[i] != i
//@ endassert linked4(chf, i, 1) && linked4(chf, n1[i], 0) ==> dist[i] <= min(255, int(iter(dist[n0[n1[i]]])) + 3) && n0[n1[i]] != i
//@ endassert linked4(chf, i, 1) ==> iter(dist[n1[i]]) <= F[n1[i]] && iter(dist[n1[i]]) >= min(255, D[n1[i]])
//@ endassert linked4(chf, i, 1) && linked4(chf, n1[i], 0) ==> iter(dist[n0[n1[i]]]) <= F[n0[n1[i]]] && iter(dist[n0[n1[i]]]) >= min(255, D[n0[n1[i]]])
//@ endassert forall k int :: {dist[k]} 0 <= k && k < len(dist) && k != i ==> dist[k] == iter(dist[k])
//@ endassert dist[i] == iter(dist[i]) || linked4(chf, i, 2) && dist[i] == min(255, int(iter(dist[n2[i]])) + 2) || linked4(chf, i, 2) && linked4(chf, n2[i], 1) && dist[i] == min(255, int(iter(dist[n1[n2[i]]])) + 3) || linked4(chf, i, 1) && dist[i] == min(255, int(iter(dist[n1[i]])) + 2) || linked4(chf, i, 1) && linked4(chf, n1[i], 0) && dist[i] == min(255, int(iter(dist[n0[n1[i]]])) + 3)
//@ endassert dist[i] >= min(D[i], 255)
//@ endassert dist[i] <= F[i]
//@ decreases ni - i
//@ loop 12
//@ invariant 0 <= i && i <= chf.SpanCount
//@ invariant forall k int :: {chf.Areas[k]} 0 <= k && k < i ==> chf.Areas[k] == (dist[k] < 2*radius ? 0 : old(chf.Areas[k]))
//@ invariant forall k int :: {chf.Areas[k]} i <= k && k < chf.SpanCount ==> chf.Areas[k] == old(chf.Areas[k])
//@ decreases chf.SpanCount - i

// even-odd rule over the polygon's edges, the edge before vertex i ending in i
//@ pred crosses(vx seq float32, vz seq float32, i int, j int, px float32, pz float32) = flt(pz, vz[i]) != flt(pz, vz[j]) && flt(px, (vx[j]-vx[i])*(pz-vz[i])/(vz[j]-vz[i])+vx[i])
//@ recfn inside(vx seq float32, vz seq float32, n int, k int, px float32, pz float32) bool = k <= 0 ? false : inside(vx, vz, n, k-1, px, pz) != crosses(vx, vz, k-1, k == 1 ? n-1 : k-2, px, pz)
//@ pred cornersAre(verts []float32, n int, vx seq float32, vz seq float32) = 0 <= n && 3*n <= len(verts) && n <= 700000000 && (forall k int :: {vx[k]} 0 <= k && k < n ==> vx[k] == verts[3*k] && vz[k] == verts[3*k+2])

//@ func recast.pointInPoly
//@ property C18
//@ floats uf
//@ gparam vx seq float32
//@ gparam vz seq float32
//@ requires cornersAre(verts, nvert, vx, vz) && len(p) >= 3
//@ ensures result == inside(vx, vz, nvert, nvert, p[0], p[2])
//@ modifies nothing
//@ loop 1
//@ invariant 0 <= i && i <= nvert && j == (i == 0 ? nvert - 1 : i - 1)
//@ invariant c == inside(vx, vz, nvert, i, p[0], p[2])
//@ assert vx[i] == verts[3*i] && vx[j] == verts[3*j] && vz[i] == verts[3*i+2] && vz[j] == verts[3*j+2]
//@ decreases nvert - i

//@ fn centreOf(lo float32, x int32, cs float32) float32 = lo + (float32(x)+0.5)*cs
//@ fn rowOf(v float32, lo float32, ch float32) int32 = int32((v - lo)/ch)
//@ pred markable(chf *CompactHeightfield, gx seq int, gy seq int, i int, vx seq float32, vz seq float32, n int, hmin float32, hmax float32) = chf.Areas[i] != 0 && rowOf(hmin, chf.BMin[1], chf.Ch) <= chf.Spans[i].Y && chf.Spans[i].Y <= rowOf(hmax, chf.BMin[1], chf.Ch) && inside(vx, vz, n, n, centreOf(chf.BMin[0], gx[i], chf.Cs), centreOf(chf.BMin[2], gy[i], chf.Cs))
//@ fn markedArea(chf *CompactHeightfield, gx seq int, gy seq int, i int, vx seq float32, vz seq float32, n int, hmin float32, hmax float32, area int) int = markable(chf, gx, gy, i, vx, vz, n, hmin, hmax) ? area : chf.Areas[i]

//@ func recast.MarkConvexPolyArea
//@ property C18
//@ floats uf
//@ gparam gx seq int
//@ gparam gy seq int
//@ gparam row seq int
//@ gparam n0 seq int
//@ gparam n1 seq int
//@ gparam n2 seq int
//@ gparam n3 seq int
//@ gparam vx seq float32
//@ gparam vz seq float32
//@ requires ctxOK(ctx) && chf != nil && compactOK(chf, gx, gy, row, n0, n1, n2, n3) && cornersAre(verts, nverts, vx, vz) && 1 <= nverts
//@ ensures forall i int :: {chf.Areas[i]} 0 <= i && i < chf.SpanCount ==> chf.Areas[i] == old(chf.Areas[i]) || chf.Areas[i] == old(markedArea(chf, gx, gy, i, vx, vz, nverts, hmin, hmax, areaID))
//@ exitassert forall i int :: {chf.Areas[i]} 0 <= i && i < chf.SpanCount ==> chf.Areas[i] == (minx <= gx[i] && gx[i] <= maxx && minz <= gy[i] && gy[i] <= maxz ? old(markedArea(chf, gx, gy, i, vx, vz, nverts, hmin, hmax, areaID)) : old(chf.Areas[i]))
//@ modifies chf.Areas[*], ctx.startTime[*], ctx.accTime[*]
//@ loop 1
//@ invariant 1 <= i && i <= nverts
//@ decreases nverts - i
//@ loop 2
//@ invariant minz <= z && z <= max(minz, int(maxz) + 1)
//@ invariant 0 <= minx && maxx < chf.Width && 0 <= minz && maxz < chf.Height
//@ invariant forall k int :: {chf.Areas[k]} {gx[k]} 0 <= k && k < chf.SpanCount ==> chf.Areas[k] == (minx <= gx[k] && gx[k] <= maxx && minz <= gy[k] && gy[k] < z ? old(markedArea(chf, gx, gy, k, vx, vz, nverts, hmin, hmax, areaID)) : old(chf.Areas[k]))
//@ decreases int(maxz) - z
//@ loop 3
//@ invariant minx <= x && x <= max(minx, int(maxx) + 1) && minz <= z && z <= maxz
//@ invariant 0 <= z*chf.Width && z*chf.Width + chf.Width <= len(chf.Cells)
//@ invariant forall k int :: {chf.Areas[k]} {gx[k]} 0 <= k && k < chf.SpanCount ==> chf.Areas[k] == (minx <= gx[k] && gx[k] <= maxx && minz <= gy[k] && (gy[k] < z || gy[k] == z && gx[k] < x) ? old(markedArea(chf, gx, gy, k, vx, vz, nverts, hmin, hmax, areaID)) : old(chf.Areas[k]))
//@ assert row[z] == z*chf.Width
//@ decreases int(maxx) - x
//@ loop 4
//@ invariant c.Index <= i && i <= ni && ni == int(c.Index) + int(c.Count) && minx <= x && x <= maxx
//@ invariant forall k int :: {gx[k]} 0 <= k && k < chf.SpanCount && gx[k] == x && gy[k] == z ==> c.Index <= k && k < ni
//@ invariant forall k int :: {chf.Areas[k]} {gx[k]} 0 <= k && k < chf.SpanCount ==> chf.Areas[k] == (minx <= gx[k] && gx[k] <= maxx && minz <= gy[k] && (gy[k] < z || gy[k] == z && (gx[k] < x || gx[k] == x && k < i)) ? old(markedArea(chf, gx, gy, k, vx, vz, nverts, hmin, hmax, areaID)) : old(chf.Areas[k]))
//@ assert row[z] == z*chf.Width
//@ assert 0 <= i && i < chf.SpanCount && spanPlaced(chf, gx, gy, row, i) && gx[i]+row[gy[i]] == x+z*chf.Width
//@ assert gx[i] == x && gy[i] == z
//@ decreases ni - i
