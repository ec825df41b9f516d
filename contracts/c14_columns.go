//go:build verif_contracts

package contracts

// C14, C15, C17: columns of solid spans. Ghost view: own[s] is the column span
// s stands in, negative when it stands in none; frk[s] is positive for spans on
// the free list, falling along it. A column lists all its spans, bottom to top,
// with a gap between each and the next.

//@ package recast

//@ pred colHeads(hf *Heightfield, own rmap int) = forall c int :: {hf.Spans[c]} 0 <= c && c < len(hf.Spans) && hf.Spans[c] != nil ==> own[hf.Spans[c]] == c
//@ pred colNode(hf *Heightfield, s *Span, own rmap int) = allocated(s) && own[s] < len(hf.Spans) && s.smin <= s.smax && hf.Spans[own[s]] != nil && hf.Spans[own[s]].smin <= s.smin && (s.next == nil || own[s.next] == own[s] && s.smax < s.next.smin)
//@ pred colNodes(hf *Heightfield, own rmap int) = forall s *Span :: {own[s]} s != nil && 0 <= own[s] ==> colNode(hf, s, own)
//@ pred colGaps(own rmap int) = forall s *Span, t *Span :: {own[s], own[t]} s != nil && t != nil && 0 <= own[s] && own[t] == own[s] && s != t && s.smin <= t.smin ==> s.next != nil && s.next.smin <= t.smin
//@ pred colsOK(hf *Heightfield, own rmap int) = colHeads(hf, own) && colNodes(hf, own) && colGaps(own)

//@ pred listHeadOK(h *Span, own rmap int, frk rmap int) = h != nil ==> allocated(h) && own[h] < 0 && frk[h] > 0
//@ pred freeListOK(h *Span, own rmap int, frk rmap int) = forall s *Span :: {frk[s]} s != nil && frk[s] > 0 ==> allocated(s) && own[s] < 0 && h != nil && frk[s] <= frk[h] && (s.next == nil || frk[s.next] > 0 && frk[s.next] < frk[s])
//@ pred freeUnique(own rmap int, frk rmap int) = forall s *Span, t *Span :: {frk[s], frk[t]} s != nil && t != nil && s != t && frk[t] > 0 && frk[t] <= frk[s] ==> s.next != nil && frk[s.next] >= frk[t]
//@ pred ownAlloc(own rmap int) = forall s *Span :: {own[s]} s != nil && 0 <= own[s] ==> allocated(s)
//@ pred spansFree(h *Span, own rmap int, frk rmap int) = listHeadOK(h, own, frk) && freeListOK(h, own, frk) && freeUnique(own, frk) && ownAlloc(own)

//@ func recast.(*Heightfield).freeSpan
//@ property C14
//@ requires hf != nil
//@ ensures ptr != nil ==> hf.Freelist == ptr && ptr.next == old(hf.Freelist)
//@ ensures ptr == nil ==> hf.Freelist == old(hf.Freelist)
//@ modifies hf.Freelist, ptr.next

//@ fn rankAt(s *Span, frk rmap int) int = s == nil ? 0 : frk[s]
//@ func recast.(*Heightfield).allocSpan
//@ property C14
//@ gparam own rmap int
//@ gparam frk0 rmap int
//@ ghost frk rmap int = frk0
//@ requires hf != nil && spansFree(hf.Freelist, own, frk0)
//@ ensures result != nil && allocated(result) && own[result] < 0
//@ ensures spansFree(hf.Freelist, own, update(frk, result, 0))
//@ ensures forall s *Span :: {s.next} old(allocated(s)) ==> s.next == old(s.next)
//@ modifies hf.Freelist, hf.Pools
//@ loop 1
//@ invariant 0 <= i && i <= 2047 && hf.Freelist == old(hf.Freelist)
//@ invariant freelist == (i == 2047 ? old(hf.Freelist) : &pool.items[i+1]) && (i < 2047 ==> it == freelist)
//@ invariant spansFree(freelist, own, frk)
//@ invariant freelist != nil ==> frk[freelist] == rankAt(old(hf.Freelist), frk0) + 2047 - i
//@ invariant forall s *Span :: {s.next} old(allocated(s)) ==> s.next == old(s.next)
//@ invariant forall j int :: {&pool.items[j]} 0 <= j && j <= i ==> frk[&pool.items[j]] <= 0
//@ step frk = update(frk, it, rankAt(old(hf.Freelist), frk0) + 2048 - i)

//@ pred touches(t *Span, c int, smin int, smax int, own rmap int) = own[t] == c && t.smin <= smax && t.smax >= smin
//@ pred counts(t *Span, c int, smin int, smax int, thr int, own rmap int) = touches(t, c, smin, smax, own) && max(0, smax - t.smax) <= thr
//@ fn slot(hf *Heightfield, x int, y int) int = x + y*hf.Width
//@ pred lowEnd(v int, lo *Span, c int, smin int, smax int, own rmap int) = lo == nil ? v == smin : touches(lo, c, smin, smax, own) && v == lo.smin
//@ pred highEnd(v int, hi *Span, c int, smin int, smax int, own rmap int) = hi == nil ? v == smax : touches(hi, c, smin, smax, own) && v == hi.smax
//@ pred areaOf(v int, ar *Span, c int, smin int, smax int, area int, thr int, own rmap int) = ar == nil ? v == area : counts(ar, c, smin, smax, thr, own) && v == ar.area

//@ func recast.(*Heightfield).addSpan
//@ property C14
//@ gparam own0 rmap int
//@ gparam frk0 rmap int
//@ ghost own rmap int = own0
//@ ghost frk rmap int = frk0
//@ ghost new *Span = nil
//@ ghost lo *Span = nil
//@ ghost hi *Span = nil
//@ ghost ar *Span = nil
//@ requires hf != nil && 0 <= x && 0 <= y && 0 <= hf.Width && 0 <= slot(hf, x, y) && slot(hf, x, y) < len(hf.Spans) && len(hf.Spans) <= 2147483647 && smin <= smax && 0 <= flagMergeThr
//@ requires colsOK(hf, own0) && spansFree(hf.Freelist, own0, frk0)
//@ let c = slot(hf, x, y)
//@ ensures result && new != nil && own0[new] < 0 && own[new] < 0
//@ ensures colsOK(hf, update(own, new, c))
//@ ensures spansFree(hf.Freelist, update(own, new, c), frk)
//@ ensures forall t *Span :: {own[t]} t != nil && t != new ==> own[t] == (old(touches(t, c, smin, smax, own0)) ? -1 : own0[t])
//@ ensures new.smin <= smin && smax <= new.smax && area <= new.area
//@ ensures forall t *Span :: {own0[t]} t != nil && old(touches(t, c, smin, smax, own0)) ==> new.smin <= t.smin && t.smax <= new.smax
//@ ensures forall t *Span :: {own0[t]} t != nil && old(counts(t, c, smin, smax, flagMergeThr, own0)) ==> t.area <= new.area
//@ ensures lowEnd(new.smin, lo, c, smin, smax, own0) && highEnd(new.smax, hi, c, smin, smax, own0) && areaOf(new.area, ar, c, smin, smax, area, flagMergeThr, own0)
//@ ensures forall t *Span :: {own0[t]} t != nil && 0 <= own0[t] ==> t.smin == old(t.smin) && t.smax == old(t.smax) && t.area == old(t.area)
//@ ensures forall t *Span :: {own0[t]} t != nil && 0 <= own0[t] && own0[t] != c ==> t.next == old(t.next)
//@ modifies hf.Spans[x+y*hf.Width], hf.Freelist, hf.Pools, heapof(Span)
//@ hook allocSpan after ghost new = $res
//@ hook allocSpan after ghost frk = update($out_frk, $res, 0)
//@ hook freeSpan before ghost lo = s.smin == cur.smin ? cur : lo
//@ hook freeSpan before ghost hi = s.smax == cur.smax ? cur : hi
//@ hook freeSpan before ghost ar = max(0, smax - cur.smax) <= flagMergeThr && s.area == cur.area ? cur : ar
//@ hook freeSpan before ghost own = update(own, cur, -1)
//@ hook freeSpan before ghost frk = update(frk, cur, rankAt(hf.Freelist, frk) + 1)
//@ exitassert new != nil
//@ loop 1
//@ invariant colsOK(hf, own) && spansFree(hf.Freelist, own, frk)
//@ invariant s == new && own[new] < 0 && frk[new] <= 0 && allocated(new) && len(hf.Spans) == old(len(hf.Spans))
//@ invariant prev == nil ? cur == hf.Spans[c] : own[prev] == c && prev.next == cur && prev.smax < s.smin
//@ invariant s.smin <= smin && smax <= s.smax && area <= s.area
//@ invariant cur != nil ==> s.smax == smax || s.smax < cur.smin
//@ invariant forall t *Span :: {own[t]} t != nil ==> own[t] == (touches(t, c, smin, smax, own0) && (cur == nil || t.smin < cur.smin) ? -1 : own0[t])
//@ invariant forall t *Span :: {own0[t]} t != nil && touches(t, c, smin, smax, own0) && (cur == nil || t.smin < cur.smin) ==> s.smin <= t.smin && t.smax <= s.smax
//@ invariant forall t *Span :: {own0[t]} t != nil && counts(t, c, smin, smax, flagMergeThr, own0) && (cur == nil || t.smin < cur.smin) ==> t.area <= s.area
//@ invariant lowEnd(s.smin, lo, c, smin, smax, own0) && highEnd(s.smax, hi, c, smin, smax, own0) && areaOf(s.area, ar, c, smin, smax, area, flagMergeThr, own0)
//@ invariant forall t *Span :: {own0[t]} t != nil && 0 <= own0[t] ==> t.smin == old(t.smin) && t.smax == old(t.smax) && t.area == old(t.area)
//@ invariant forall t *Span :: {own0[t]} t != nil && 0 <= own0[t] && own0[t] != c ==> t.next == old(t.next)
//@ decreases cur == nil ? 0 : 65536 - cur.smin
