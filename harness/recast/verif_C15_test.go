package recast

import "testing"

// verif:share vcols
func TestVerifC15(t *testing.T) {
	h := newVH(t, "random column fields (0-6 spans per column, tops up to the height limit) through both filters, each span compared with the rule")
	defer h.done()
	ctx := NewBuildContext(false)
	for k := 0; k < h.n(30000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d := int32(1+h.intn(6)), int32(1+h.intn(6))
		height := 4 + h.intn(60)
		if h.intn(6) == 0 {
			height = 40000
		}
		v := int32(h.intn(1 + height/3))
		if h.intn(10) == 0 {
			v = int32(h.intn(65536))
		}
		low := h.intn(2) == 0
		h.do("filter", sprint("seed", seed, "w", w, "d", d, "height", height, "limit", v, "clearance", low), func() {
			hf := vfield(h, w, d, 6, height)
			want := vcopy(hf)
			for c := range want {
				old := append([]vspan{}, want[c]...)
				for i, s := range old {
					if low {
						top := 65535
						if i+1 < len(old) {
							top = old[i+1].lo
						}
						if int32(top-s.hi) <= v {
							want[c][i].area = 0
						}
					} else if i > 0 && s.area == 0 && old[i-1].area != 0 && int32(s.hi-old[i-1].hi) <= v {
						want[c][i].area = old[i-1].area
					}
				}
			}
			if low {
				FilterWalkableLowHeightSpans(ctx, v, hf)
			} else {
				FilterLowHangingWalkableObstacles(ctx, v, hf)
			}
			for c := range want {
				got := vcolumn(hf, c)
				if !vsame(got, want[c]) {
					h.ok(false, "column after filtering", "column %d: got %v want %v", c, got, want[c])
					return
				}
			}
			h.ok(hf.Width == w && hf.Height == d, "field unchanged", "")
		})
	}
	// ledges
	for k := 0; k < h.n(15000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d := int32(1+h.intn(6)), int32(1+h.intn(6))
		height := 4 + h.intn(60)
		if h.intn(6) == 0 {
			height = 40000
		}
		wh, climb := h.intn(1+height/3), h.intn(1+height/3)
		if h.intn(10) == 0 {
			climb = h.intn(65536)
		}
		h.do("ledges", sprint("seed", seed, "w", w, "d", d, "height", height, "clearance", wh, "climb", climb), func() {
			hf := vfield(h, w, d, 6, height)
			was := vcopy(hf)
			want := vcopy(hf)
			type gap struct{ lo, hi int }
			gaps := func(c int) []gap {
				g := []gap{{-climb, 65535}}
				for _, s := range was[c] {
					g[len(g)-1].hi = int(s.lo)
					g = append(g, gap{int(s.hi), 65535})
				}
				return g
			}
			for c := range want {
				x, y := c%int(w), c/int(w)
				for i, s := range was[c] {
					if s.area == 0 {
						continue
					}
					own := gaps(c)[i+1]
					ledge, lo, hi := false, own.lo, own.lo
					for _, n := range [4][2]int{{x - 1, y}, {x, y + 1}, {x + 1, y}, {x, y - 1}} {
						if n[0] < 0 || n[1] < 0 || n[0] >= int(w) || n[1] >= int(d) {
							ledge = ledge || own.lo > 0
							continue
						}
						for j, g := range gaps(n[0] + n[1]*int(w)) {
							room := g.hi
							if own.hi < room {
								room = own.hi
							}
							if g.lo > own.lo {
								room -= g.lo
							} else {
								room -= own.lo
							}
							if room <= wh {
								continue
							}
							ledge = ledge || own.lo-g.lo > climb
							if j > 0 && own.lo-g.lo <= climb && g.lo-own.lo <= climb {
								if g.lo < lo {
									lo = g.lo
								}
								if g.lo > hi {
									hi = g.lo
								}
							}
						}
					}
					if ledge || hi-lo > climb {
						want[c][i].area = 0
					}
				}
			}
			FilterLedgeSpans(ctx, int32(wh), int32(climb), hf)
			for c := range want {
				got := vcolumn(hf, c)
				if !vsame(got, want[c]) {
					h.ok(false, "column after ledge filtering", "column %d: got %v want %v, before %v", c, got, want[c], was[c])
					return
				}
			}
		})
	}
}
