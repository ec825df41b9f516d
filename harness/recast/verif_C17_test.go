package recast

import "testing"

// verif:share vcols
func TestVerifC17(t *testing.T) {
	h := newVH(t, "random column fields converted, every open span and every link compared with the rule; tall columns with more than 63 open spans included")
	defer h.done()
	ctx := NewBuildContext(false)
	for k := 0; k < h.n(12000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d := int32(1+h.intn(6)), int32(1+h.intn(6))
		height := 4 + h.intn(60)
		spans := 6
		switch h.intn(12) {
		case 0:
			height = 40000
		case 1:
			height, spans, w, d = 8, 200, int32(1+h.intn(3)), int32(1+h.intn(3))
		}
		wh := int32(h.intn(1 + height/3))
		cl := int32(h.intn(1 + height/3))
		if h.intn(8) == 0 {
			cl = int32(h.intn(70000))
		}
		h.do("convert", sprint("seed", seed, "w", w, "d", d, "height", height, "spans", spans, "clearance", wh, "climb", cl), func() {
			hf := vfield(h, w, d, spans, height)
			before := vcopy(hf)
			chf := &CompactHeightfield{}
			h.ok(BuildCompactHeightfield(ctx, wh, cl, hf, chf), "conversion succeeds", "")
			after := vcopy(hf)
			type open struct {
				y, h int
				area uint8
			}
			var all []open
			cols := make([][]open, len(before))
			for c := range before {
				if !vsame(before[c], after[c]) {
					h.ok(false, "solid field unchanged", "column %d", c)
					return
				}
				for i, s := range before[c] {
					if s.area == 0 {
						continue
					}
					top := 65535
					if i+1 < len(before[c]) {
						top = before[c][i+1].lo
					}
					g := top - s.hi
					if g > 255 {
						g = 255
					}
					cols[c] = append(cols[c], open{s.hi, g, s.area})
				}
				all = append(all, cols[c]...)
			}
			h.ok(hf.GetHeightFieldSpanCount(ctx) == int32(len(all)), "walkable span count", "got %d want %d", hf.GetHeightFieldSpanCount(ctx), len(all))
			h.ok(chf.Width == w && chf.Height == d && chf.SpanCount == int32(len(all)) && len(chf.Spans) == len(all) && len(chf.Areas) == len(all) && len(chf.Cells) == len(cols), "sizes", "span count %d want %d", chf.SpanCount, len(all))
			h.ok(chf.WalkableHeight == wh && chf.WalkableClimb == cl && chf.Cs == hf.Cs && chf.Ch == hf.Ch, "settings", "")
			h.ok(chf.BMin == hf.BMin && chf.BMax[0] == hf.BMax[0] && chf.BMax[2] == hf.BMax[2] && chf.BMax[1] == hf.BMax[1]+float32(wh)*hf.Ch, "bounds", "got %v %v", chf.BMin, chf.BMax)
			at := 0
			for c := range cols {
				cell := chf.Cells[c]
				if int(cell.Count) != len(cols[c]) || (cell.Count > 0 && int(cell.Index) != at) {
					h.ok(false, "column ranges", "column %d: got %v want %d from %d", c, cell, len(cols[c]), at)
					return
				}
				for i, o := range cols[c] {
					s := chf.Spans[at+i]
					if int(s.Y) != o.y || int(s.H) != o.h || chf.Areas[at+i] != o.area {
						h.ok(false, "open span", "column %d span %d: got floor %d height %d area %d, want %v", c, i, s.Y, s.H, chf.Areas[at+i], o)
						return
					}
				}
				at += len(cols[c])
			}
			dx := []int{-1, 0, 1, 0}
			dy := []int{0, 1, 0, -1}
			for c := range cols {
				x, y := c%int(w), c/int(w)
				for i, o := range cols[c] {
					for dir := 0; dir < 4; dir++ {
						want := 63
						nx, ny := x+dx[dir], y+dy[dir]
						if nx >= 0 && ny >= 0 && nx < int(w) && ny < int(d) {
							for j, p := range cols[nx+ny*int(w)] {
								bot, top := o.y, o.y+o.h
								if p.y > bot {
									bot = p.y
								}
								if p.y+p.h < top {
									top = p.y + p.h
								}
								df := p.y - o.y
								if df < 0 {
									df = -df
								}
								if j < 63 && int32(top-bot) >= wh && int32(df) <= cl {
									want = j
									break
								}
							}
						}
						if got := GetCon(&chf.Spans[int(chf.Cells[c].Index)+i], int32(dir)); int(got) != want {
							h.ok(false, "link", "column %d span %d direction %d: got %d want %d", c, i, dir, got, want)
							return
						}
					}
				}
			}
		})
	}
}
