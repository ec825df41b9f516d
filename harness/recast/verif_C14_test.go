package recast

import "testing"

// verif:share vcols
func TestVerifC14(t *testing.T) {
	h := newVH(t, "histories of up to 400 span insertions (some past one allocation page of 2048) into random grids, each compared with a reference list of intervals")
	defer h.done()
	for k := 0; k < h.n(6000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d := int32(1+h.intn(5)), int32(1+h.intn(5))
		n := 1 + h.intn(120)
		height := 4 + h.intn(60)
		if k%200 == 7 {
			w, d, n, height = 40, 40, 5000, 40
		}
		if h.intn(6) == 0 {
			height = 65535
		}
		h.do("history", sprint("seed", seed, "w", w, "d", d, "n", n, "height", height), func() {
			hf := NewHeightfield(w, d, []float32{0, 0, 0}, []float32{1, 1, 1}, 1, 1)
			ref := make([][]vspan, w*d)
			for i := 0; i < n; i++ {
				x, y := h.intn(int(w)), h.intn(int(d))
				lo := h.intn(height)
				hi := lo + h.intn(1+height/5)
				switch h.intn(5) {
				case 0:
					hi = lo
				case 1: // one that spans much of the column
					hi = lo + h.intn(height)
				}
				if hi > 65535 {
					hi = 65535
				}
				area := uint8(h.intn(64))
				thr := int32(h.intn(4))
				if h.intn(8) == 0 {
					thr = int32(h.intn(70000))
				}
				c := x + y*int(w)
				// reference: one merged span, everything it does not touch stays
				m := vspan{lo, hi, area}
				var below, above []vspan
				for _, s := range ref[c] {
					switch {
					case s.hi < lo:
						below = append(below, s)
					case s.lo > hi:
						above = append(above, s)
					default:
						if s.lo < m.lo {
							m.lo = s.lo
						}
						if s.hi > m.hi {
							m.hi = s.hi
						}
						if int32(hi-s.hi) <= thr && s.area > m.area {
							m.area = s.area
						}
					}
				}
				out := append(append(below, m), above...)
				ref[c] = out
				ok := hf.addSpan(int32(x), int32(y), uint16(lo), uint16(hi), area, thr)
				h.ok(ok, "insertion succeeds", "step %d", i)
				got := vcolumn(hf, c)
				if !vsame(got, ref[c]) {
					h.ok(false, "column after insertion", "step %d: column %d after adding %d-%d area %d threshold %d: got %v want %v", i, c, lo, hi, area, thr, got, ref[c])
					return
				}
			}
			for c := range ref {
				got := vcolumn(hf, c)
				if !vsame(got, ref[c]) {
					h.ok(false, "untouched columns", "column %d: got %v want %v", c, got, ref[c])
					return
				}
			}
			// no span is both in a column and free
			used := map[*Span]bool{}
			for _, s := range hf.Spans {
				for ; s != nil; s = s.next {
					h.ok(!used[s], "span used once", "a span stands in two columns")
					used[s] = true
				}
			}
			cnt := 0
			for s := hf.Freelist; s != nil && cnt < 200000; s = s.next {
				cnt++
				if used[s] {
					h.ok(false, "free span in use", "a span on the free list stands in a column")
					return
				}
			}
		})
	}
}
