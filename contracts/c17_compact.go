//go:build verif_contracts

package contracts

// C17: open-space conversion. Ghost view: num[s] counts the walkable spans
// listed before s (columns in order, each bottom to top), first[c] those in the
// columns before c. Both are defined by the heightfield, so every well-formed
// heightfield has them.

//@ package recast

//@ fn one(s *Span) int = s.area == 0 ? 0 : 1
//@ pred numSpan(s *Span, own rmap int, num rmap int, first seq int) = first[own[s]] <= num[s] && num[s] + one(s) <= first[own[s]+1] && (s.next != nil ? num[s.next] == num[s] + one(s) : first[own[s]+1] == num[s] + one(s))
//@ pred numCol(hf *Heightfield, c int, num rmap int, first seq int) = hf.Spans[c] == nil ? first[c+1] == first[c] : num[hf.Spans[c]] == first[c] && first[c] <= first[c+1]
// consequences of the definition, which the verifier does not derive by itself
//@ pred numRises(hf *Heightfield, own rmap int, num rmap int, first seq int) = (forall c int, d int :: {first[c], first[d]} 0 <= c && c <= d && d <= len(hf.Spans) ==> first[c] <= first[d]) && (forall s *Span, t *Span :: {num[s], num[t]} s != nil && t != nil && 0 <= own[s] && own[t] == own[s] && s.smin < t.smin ==> num[s] + one(s) <= num[t])
//@ pred numbered(hf *Heightfield, own rmap int, num rmap int, first seq int) = first[0] == 0 && numRises(hf, own, num, first) && (forall s *Span :: {own[s]} s != nil && 0 <= own[s] ==> numSpan(s, own, num, first)) && (forall c int :: {hf.Spans[c]} 0 <= c && c < len(hf.Spans) ==> numCol(hf, c, num, first)) && (forall c int :: {first[c]} 0 <= c && c <= len(hf.Spans) ==> 0 <= first[c] && first[c] <= 2147483647)

//@ func recast.(*Heightfield).GetHeightFieldSpanCount
//@ property C17
//@ gparam own rmap int
//@ gparam num rmap int
//@ gparam first seq int
//@ requires hf != nil && gridShape(hf) && colsOK(hf, own) && numbered(hf, own, num, first)
//@ ensures result == first[len(hf.Spans)]
//@ modifies nothing
//@ loop 1
//@ invariant 0 <= y && y <= h && w == hf.Width && h == hf.Height && spanCount == first[y*w]
//@ decreases h - y
//@ loop 2
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w && spanCount == first[x+y*w]
//@ decreases w - x
//@ loop 3
//@ invariant s == nil ? spanCount == first[x+y*w+1] : own[s] == x+y*w && spanCount == num[s]
//@ decreases s == nil ? 0 : 65536 - s.smin

//@ pred columnsFit(hf *Heightfield, first seq int) = forall c int :: {hf.Spans[c]} 0 <= c && c < len(hf.Spans) ==> first[c+1] - first[c] <= 255
//@ fn openHeight(s *Span) int = min(255, ceilingOf(s) - s.smax)
//@ pred opened(chf *CompactHeightfield, s *Span, num rmap int) = chf.Spans[num[s]].Y == s.smax && chf.Spans[num[s]].H == openHeight(s) && chf.Areas[num[s]] == s.area
//@ pred cellRange(chf *CompactHeightfield, c int, first seq int) = chf.Cells[c].Count == first[c+1] - first[c] && (chf.Cells[c].Index == first[c] || chf.Cells[c].Count == 0 && chf.Cells[c].Index == 0)
//@ fn topOf(a *CompactSpan) int = int(a.Y) + int(a.H)
//@ pred gapOK(a *CompactSpan, b *CompactSpan, wh int, climb int) = min(topOf(a), topOf(b)) - max(a.Y, b.Y) >= wh && abs(int(b.Y) - int(a.Y)) <= climb
//@ pred noGap(chf *CompactHeightfield, i int, lo int, hi int, wh int, climb int) = forall k int :: {&chf.Spans[k]} lo <= k && k < hi ==> !gapOK(&chf.Spans[i], &chf.Spans[k], wh, climb)
//@ pred linkTo(chf *CompactHeightfield, i int, con int, n *CompactCell, wh int, climb int) = con == 63 ? noGap(chf, i, n.Index, min(int(n.Index)+int(n.Count), int(n.Index)+63), wh, climb) : con < n.Count && gapOK(&chf.Spans[i], &chf.Spans[int(n.Index)+con], wh, climb) && noGap(chf, i, n.Index, int(n.Index)+con, wh, climb)
//@ pred outside(chf *CompactHeightfield, nx int, ny int) = nx < 0 || ny < 0 || nx >= chf.Width || ny >= chf.Height
//@ pred linkRule(chf *CompactHeightfield, i int, d int32, nx int, ny int, wh int, climb int) = outside(chf, nx, ny) ? conBits(chf.Spans[i].Con, d) == 63 : linkTo(chf, i, conBits(chf.Spans[i].Con, d), &chf.Cells[nx+ny*chf.Width], wh, climb)
//@ pred linksSet(chf *CompactHeightfield, i int, x int, y int, wh int, climb int) = linkRule(chf, i, 0, x-1, y, wh, climb) && linkRule(chf, i, 1, x, y+1, wh, climb) && linkRule(chf, i, 2, x+1, y, wh, climb) && linkRule(chf, i, 3, x, y-1, wh, climb)

// gx[i], gy[i]: the column span number i belongs to
//@ pred inCell(w int, h int, i int, x int, y int, first seq int) = 0 <= x && x < w && 0 <= y && y < h && first[x+y*w] <= i && i < first[x+y*w+1]
//@ pred located(hf *Heightfield, gx seq int, gy seq int, first seq int) = forall i int :: {gx[i]} 0 <= i && i < first[len(hf.Spans)] ==> inCell(hf.Width, hf.Height, i, gx[i], gy[i], first)

//@ func recast.BuildCompactHeightfield
//@ property C17
//@ gparam own rmap int
//@ gparam num rmap int
//@ gparam first seq int
//@ gparam gx seq int
//@ gparam gy seq int
//@ requires ctxOK(ctx) && hf != nil && chf != nil && gridShape(hf) && colsOK(hf, own) && numbered(hf, own, num, first) && columnsFit(hf, first) && located(hf, gx, gy, first)
//@ requires 0 <= walkableHeight && 0 <= walkableClimb
//@ ensures result
//@ ensures chf.Width == hf.Width && chf.Height == hf.Height && chf.SpanCount == first[len(hf.Spans)] && chf.WalkableHeight == walkableHeight && chf.WalkableClimb == walkableClimb && chf.MaxRegions == 0
//@ ensures len(chf.Cells) == len(hf.Spans) && len(chf.Spans) == chf.SpanCount && len(chf.Areas) == chf.SpanCount
//@ ensures forall c int :: {&chf.Cells[c]} 0 <= c && c < len(hf.Spans) ==> cellRange(chf, c, first)
//@ ensures forall s *Span :: {own[s]} s != nil && 0 <= own[s] && s.area != 0 ==> opened(chf, s, num)
//@ ensures forall i int :: {gx[i]} 0 <= i && i < chf.SpanCount ==> linksSet(chf, i, gx[i], gy[i], walkableHeight, walkableClimb)
//@ modifies *chf, ctx.startTime[*], ctx.numMessages, ctx.messages[*]
//@ loop 1
//@ invariant forall k int :: {chf.Areas[k]} 0 <= k && k < $i ==> chf.Areas[k] == 0
//@ loop 2
//@ invariant 0 <= y && y <= h && w == hf.Width && h == hf.Height && w == chf.Width && h == chf.Height && idx == first[y*w]
//@ invariant forall c int :: {&chf.Cells[c]} 0 <= c && c < y*w ==> cellRange(chf, c, first)
//@ invariant forall c int :: {&chf.Cells[c]} y*w <= c && c < len(chf.Cells) ==> chf.Cells[c].Count == 0 && chf.Cells[c].Index == 0
//@ invariant forall s *Span :: {own[s]} s != nil && 0 <= own[s] && own[s] < y*w && s.area != 0 ==> opened(chf, s, num)
//@ decreases h - y
//@ loop 3
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w && idx == first[x+y*w]
//@ invariant forall c int :: {&chf.Cells[c]} 0 <= c && c < x+y*w ==> cellRange(chf, c, first)
//@ invariant forall c int :: {&chf.Cells[c]} x+y*w <= c && c < len(chf.Cells) ==> chf.Cells[c].Count == 0 && chf.Cells[c].Index == 0
//@ invariant forall s *Span :: {own[s]} s != nil && 0 <= own[s] && own[s] < x+y*w && s.area != 0 ==> opened(chf, s, num)
//@ decreases w - x
//@ loop 4
//@ invariant c.Index == first[x+y*w] && c.Count == idx - first[x+y*w]
//@ invariant s == nil ? idx == first[x+y*w+1] : own[s] == x+y*w && idx == num[s]
//@ invariant forall q int :: {&chf.Cells[q]} 0 <= q && q < x+y*w ==> cellRange(chf, q, first)
//@ invariant forall q int :: {&chf.Cells[q]} x+y*w < q && q < len(chf.Cells) ==> chf.Cells[q].Count == 0 && chf.Cells[q].Index == 0
//@ invariant forall t *Span :: {own[t]} t != nil && 0 <= own[t] && t.area != 0 && (own[t] < x+y*w || own[t] == x+y*w && (s == nil || t.smin < s.smin)) ==> opened(chf, t, num)
//@ decreases s == nil ? 0 : 65536 - s.smin
//@ loop 5
//@ invariant 0 <= y && y <= h
//@ invariant forall q int :: {gx[q]} 0 <= q && q < first[y*w] ==> linksSet(chf, q, gx[q], gy[q], walkableHeight, walkableClimb)
//@ decreases h - y
//@ loop 6
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w
//@ invariant forall q int :: {gx[q]} 0 <= q && q < first[x+y*w] ==> linksSet(chf, q, gx[q], gy[q], walkableHeight, walkableClimb)
//@ decreases w - x
//@ loop 7
//@ invariant c.Index <= i && i <= ni && ni == int(c.Index) + int(c.Count)
//@ invariant forall q int :: {gx[q]} 0 <= q && q < first[x+y*w] ==> linksSet(chf, q, gx[q], gy[q], walkableHeight, walkableClimb)
//@ invariant forall q int :: {gx[q]} c.Index <= q && q < i ==> linksSet(chf, q, gx[q], gy[q], walkableHeight, walkableClimb)
//@ assert c.Count > 0 && first[x+y*w] <= i && i < first[x+y*w+1] && i < first[len(hf.Spans)] && inCell(w, h, i, gx[i], gy[i], first)
//@ assert gx[i]+gy[i]*w == x+y*w
//@ assert gy[i] < y ==> gy[i]*w + w <= y*w
//@ assert y < gy[i] ==> y*w + w <= gy[i]*w
//@ assert gx[i] == x && gy[i] == y
//@ endassert linksSet(chf, i, gx[i], gy[i], walkableHeight, walkableClimb)
//@ endassert forall q int :: {gx[q]} 0 <= q && q < first[x+y*w] ==> linksSet(chf, q, gx[q], gy[q], walkableHeight, walkableClimb)
//@ endassert forall q int :: {gx[q]} c.Index <= q && q < i ==> linksSet(chf, q, gx[q], gy[q], walkableHeight, walkableClimb)
//@ decreases ni - i
//@ loop 8
//@ keep
//@ invariant 0 <= dir && dir <= 4
//@ invariant forall d int32 :: {conBits(chf.Spans[i].Con, d)} 0 <= d && d < dir ==> linkRule(chf, i, d, x+dirX(d), y+dirY(d), walkableHeight, walkableClimb)
//@ invariant forall q int, d int32 :: {conBits(chf.Spans[q].Con, d)} 0 <= q && q < i ==> conBits(chf.Spans[q].Con, d) == before(conBits(chf.Spans[q].Con, d))
//@ decreases 4 - dir
//@ loop 9
//@ invariant nc.Index <= k && k <= nk && nk == int(nc.Index) + int(nc.Count)
//@ invariant conBits(s.Con, dir) == 63 && noGap(chf, i, nc.Index, min(k, int(nc.Index)+63), walkableHeight, walkableClimb)
//@ decreases nk - k
