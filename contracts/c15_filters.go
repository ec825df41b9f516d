//go:build verif_contracts

package contracts

// C15: clearance and low-obstacle filters over well-formed columns (c14).

//@ package recast

//@ pred gridShape(hf *Heightfield) = 0 <= hf.Width && 0 <= hf.Height && hf.Width * hf.Height == len(hf.Spans) && len(hf.Spans) <= 2147483647

//@ fn ceilingOf(s *Span) int = s.next == nil ? 65535 : s.next.smin
//@ fn clearArea(s *Span, wh int) int = ceilingOf(s) - s.smax <= wh ? 0 : s.area
//@ func recast.FilterWalkableLowHeightSpans
//@ property C15
//@ gparam own rmap int
//@ requires ctx != nil && solid != nil && gridShape(solid) && colsOK(solid, own)
//@ requires 0 <= walkableHeight
//@ ensures forall s *Span :: {own[s]} s != nil ==> s.area == (0 <= own[s] ? old(clearArea(s, walkableHeight)) : old(s.area))
//@ modifies Span.area, ctx.startTime[*]
//@ loop 1
//@ invariant 0 <= y && y <= h && w == solid.Width && h == solid.Height
//@ invariant forall s *Span :: {own[s]} s != nil ==> s.area == (0 <= own[s] && own[s] < y*w ? old(clearArea(s, walkableHeight)) : old(s.area))
//@ decreases h - y
//@ loop 2
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w && 0 <= y && y < h
//@ invariant forall s *Span :: {own[s]} s != nil ==> s.area == (0 <= own[s] && own[s] < x+y*w ? old(clearArea(s, walkableHeight)) : old(s.area))
//@ decreases w - x
//@ loop 3
//@ invariant s == nil || own[s] == x+y*w
//@ invariant forall t *Span :: {own[t]} t != nil ==> t.area == (0 <= own[t] && (own[t] < x+y*w || own[t] == x+y*w && (s == nil || t.smin < s.smin)) ? old(clearArea(t, walkableHeight)) : old(t.area))
//@ decreases s == nil ? 0 : 65536 - s.smin

// q is the span just above p
//@ pred liftedBy(p *Span, q *Span, climb int) = q.area == 0 && p.area != 0 && abs(q.smax - p.smax) <= climb
//@ func recast.FilterLowHangingWalkableObstacles
//@ property C15
//@ gparam own rmap int
//@ requires ctx != nil && solid != nil && gridShape(solid) && colsOK(solid, own)
//@ requires 0 <= walkableClimb
//@ ensures forall s *Span :: {own[s]} s != nil && own[s] < 0 ==> s.area == old(s.area)
//@ ensures forall c int :: {solid.Spans[c]} 0 <= c && c < len(solid.Spans) && solid.Spans[c] != nil ==> solid.Spans[c].area == old(solid.Spans[c].area)
//@ ensures forall p *Span :: {own[p]} p != nil && 0 <= own[p] && p.next != nil ==> p.next.area == (old(liftedBy(p, p.next, walkableClimb)) ? old(p.area) : old(p.next.area))
//@ modifies Span.area, ctx.startTime[*]
//@ loop 1
//@ invariant 0 <= y && y <= h && w == solid.Width && h == solid.Height
//@ invariant forall s *Span :: {own[s]} s != nil && (own[s] < 0 || own[s] >= y*w) ==> s.area == old(s.area)
//@ invariant forall c int :: {solid.Spans[c]} 0 <= c && c < y*w && solid.Spans[c] != nil ==> solid.Spans[c].area == old(solid.Spans[c].area)
//@ invariant forall p *Span :: {own[p]} p != nil && 0 <= own[p] && own[p] < y*w && p.next != nil ==> p.next.area == (old(liftedBy(p, p.next, walkableClimb)) ? old(p.area) : old(p.next.area))
//@ decreases h - y
//@ loop 2
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w && 0 <= y && y < h
//@ invariant forall s *Span :: {own[s]} s != nil && (own[s] < 0 || own[s] >= x+y*w) ==> s.area == old(s.area)
//@ invariant forall c int :: {solid.Spans[c]} 0 <= c && c < x+y*w && solid.Spans[c] != nil ==> solid.Spans[c].area == old(solid.Spans[c].area)
//@ invariant forall p *Span :: {own[p]} p != nil && 0 <= own[p] && own[p] < x+y*w && p.next != nil ==> p.next.area == (old(liftedBy(p, p.next, walkableClimb)) ? old(p.area) : old(p.next.area))
//@ decreases w - x
//@ loop 3
//@ invariant s == nil || own[s] == x+y*w
//@ invariant ps == nil ? s == solid.Spans[x+y*w] && !previousWalkable : own[ps] == x+y*w && ps.next == s && previousArea == ps.area && previousWalkable == (old(ps.area) != 0) && (previousWalkable ==> ps.area == old(ps.area))
//@ invariant forall t *Span :: {own[t]} t != nil && (own[t] < 0 || own[t] > x+y*w || own[t] == x+y*w && s != nil && t.smin >= s.smin) ==> t.area == old(t.area)
//@ invariant forall c int :: {solid.Spans[c]} 0 <= c && c <= x+y*w && solid.Spans[c] != nil ==> solid.Spans[c].area == old(solid.Spans[c].area)
//@ invariant forall p *Span :: {own[p]} p != nil && 0 <= own[p] && p.next != nil && (own[p] < x+y*w || own[p] == x+y*w && (s == nil || p.next.smin < s.smin)) ==> p.next.area == (old(liftedBy(p, p.next, walkableClimb)) ? old(p.area) : old(p.next.area))
//@ decreases s == nil ? 0 : 65536 - s.smin

// ledge filtering: which spans are cleared is compared with the rule by
// bounded runs; proved here: it clears areas of column spans and nothing else,
// looks only at columns of the grid and returns.
//@ func recast.FilterLedgeSpans
//@ property C15
//@ overflow wrap
//@ gparam own rmap int
//@ requires ctx != nil && solid != nil && gridShape(solid) && colsOK(solid, own)
//@ requires 0 <= walkableHeight && 0 <= walkableClimb
//@ ensures forall s *Span :: {own[s]} s != nil ==> s.area == old(s.area) || 0 <= own[s] && s.area == 0
//@ modifies Span.area, ctx.startTime[*]
//@ loop 1
//@ invariant 0 <= y && y <= h && w == solid.Width && h == solid.Height
//@ invariant forall s *Span :: {own[s]} s != nil ==> s.area == old(s.area) || 0 <= own[s] && s.area == 0
//@ decreases h - y
//@ loop 2
//@ invariant 0 <= y*w && y*w + w <= w*h
//@ invariant 0 <= x && x <= w && 0 <= y && y < h
//@ invariant forall s *Span :: {own[s]} s != nil ==> s.area == old(s.area) || 0 <= own[s] && s.area == 0
//@ decreases w - x
//@ loop 3
//@ invariant s == nil || own[s] == x+y*w
//@ invariant forall t *Span :: {own[t]} t != nil ==> t.area == old(t.area) || 0 <= own[t] && t.area == 0
//@ decreases s == nil ? 0 : 65536 - s.smin
