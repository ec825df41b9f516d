package recast

import (
	"math"
	"testing"
)

// verif:share vcols
func TestVerifC18(t *testing.T) {
	h := newVH(t, "erosion of random multi-layer fields compared with shortest walks to the border (never too much, everything on a monotone walk), exact on flat ground up to 400 cells wide; convex volumes of 3 to 12 corners on, across and off the grid compared span by span")
	defer h.done()
	ctx := NewBuildContext(false)
	dx := []int{-1, 0, 1, 0}
	dy := []int{0, 1, 0, -1}

	type link struct{ to, cost int }
	links := func(chf *CompactHeightfield) (gx, gy []int, n [][4]int) {
		gx, gy = make([]int, len(chf.Spans)), make([]int, len(chf.Spans))
		n = make([][4]int, len(chf.Spans))
		for y := 0; y < int(chf.Height); y++ {
			for x := 0; x < int(chf.Width); x++ {
				c := chf.Cells[x+y*int(chf.Width)]
				for i := int(c.Index); i < int(c.Index)+int(c.Count); i++ {
					gx[i], gy[i] = x, y
					for d := 0; d < 4; d++ {
						n[i][d] = -1
						if k := int(chf.Spans[i].Con >> (6 * uint(d)) & 63); k != 63 {
							n[i][d] = int(chf.Cells[x+dx[d]+(y+dy[d])*int(chf.Width)].Index) + k
						}
					}
				}
			}
		}
		return
	}
	border := func(chf *CompactHeightfield, n [][4]int, i int) bool {
		if chf.Areas[i] == 0 {
			return true
		}
		for d := 0; d < 4; d++ {
			if n[i][d] < 0 || chf.Areas[n[i][d]] == 0 {
				return true
			}
		}
		return false
	}
	// fixed point of dist[i] <= dist[link] + cost over the given links
	relax := func(dist []int, out [][]link) {
		for again := true; again; {
			again = false
			for i := range dist {
				for _, l := range out[i] {
					if dist[l.to]+l.cost < dist[i] {
						dist[i] = dist[l.to] + l.cost
						again = true
					}
				}
			}
			for i := len(dist) - 1; i >= 0; i-- {
				for _, l := range out[i] {
					if dist[l.to]+l.cost < dist[i] {
						dist[i] = dist[l.to] + l.cost
						again = true
					}
				}
			}
		}
	}
	steps := func(n [][4]int, dirs ...int) [][]link {
		out := make([][]link, len(n))
		for i := range n {
			for _, d := range dirs {
				if a := n[i][d]; a >= 0 {
					out[i] = append(out[i], link{a, 2})
					if b := n[a][(d+3)&3]; b >= 0 {
						out[i] = append(out[i], link{b, 3})
					}
				}
			}
		}
		return out
	}
	check := func(chf *CompactHeightfield, r int32, exact bool) {
		gx, gy, n := links(chf)
		_, _ = gx, gy
		const far = 1 << 20
		D, P := make([]int, len(n)), make([]int, len(n))
		for i := range n {
			D[i], P[i] = far, far
			if border(chf, n, i) {
				D[i], P[i] = 0, 0
			}
		}
		relax(D, steps(n, 0, 1, 2, 3))
		relax(P, steps(n, 0, 3))
		relax(P, steps(n, 2, 1))
		was := append([]uint8{}, chf.Areas...)
		spans := append([]CompactSpan{}, chf.Spans...)
		cells := append([]CompactCell{}, chf.Cells...)
		h.ok(ErodeWalkableArea(ctx, r, chf), "erosion succeeds", "")
		for i := range n {
			want := was[i]
			switch {
			case D[i] >= 2*int(r):
			case exact || P[i] < 2*int(r):
				want = 0
			case chf.Areas[i] == 0:
				want = 0
			}
			if chf.Areas[i] != want {
				h.ok(false, "eroded exactly the spans close to the border", "span %d in column %d,%d at distance %d/2 has area %d, had %d, radius %d", i, gx[i], gy[i], D[i], chf.Areas[i], was[i], r)
				return
			}
		}
		for i := range spans {
			h.ok(spans[i] == chf.Spans[i], "spans unchanged", "span %d", i)
		}
		for i := range cells {
			h.ok(cells[i] == chf.Cells[i], "columns unchanged", "column %d", i)
		}
	}

	for k := 0; k < h.n(4000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d := int32(1+h.intn(14)), int32(1+h.intn(14))
		r := int32(h.intn(6))
		h.do("erode layers", sprint("seed", seed, "w", w, "d", d, "radius", r), func() {
			hf := vfield(h, w, d, 1+h.intn(4), 12+h.intn(30))
			chf := &CompactHeightfield{}
			BuildCompactHeightfield(ctx, int32(h.intn(4)), int32(h.intn(20)), hf, chf)
			for n := h.intn(4); n > 0 && len(chf.Areas) > 0; n-- {
				chf.Areas[h.intn(len(chf.Areas))] = 0
			}
			check(chf, r, false)
		})
	}
	flat := func(w, d int, holes int) *CompactHeightfield {
		hf := NewHeightfield(int32(w), int32(d), []float32{0, 0, 0}, []float32{float32(w), 100, float32(d)}, 1, 0.5)
		for i := range hf.Spans {
			hf.Spans[i] = &Span{smin: 0, smax: uint16(1 + h.intn(2)), area: uint8(1 + h.intn(63))}
		}
		for n := 0; n < holes; n++ {
			hf.Spans[h.intn(len(hf.Spans))].area = 0
		}
		chf := &CompactHeightfield{}
		BuildCompactHeightfield(ctx, 2, 3, hf, chf)
		for n := 0; n < holes && len(chf.Areas) > 0; n++ {
			chf.Areas[h.intn(len(chf.Areas))] = 0
		}
		return chf
	}
	for k := 0; k < h.n(600); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d, holes := 1+h.intn(40), 1+h.intn(40), h.intn(4)
		r := int32(h.intn(25))
		switch h.intn(60) {
		case 0:
			w, d, r, holes = 260+h.intn(140), 260+h.intn(140), int32(1+h.intn(127)), h.intn(2)
		case 1:
			r = int32(h.intn(128))
		}
		h.do("erode flat", sprint("seed", seed, "w", w, "d", d, "radius", r, "holes", holes), func() {
			chf := flat(w, d, holes)
			// links over a hole in the field do not exist, so walks around it may
			// bend: only fields without missing columns are exact
			check(chf, r, len(chf.Spans) == w*d)
		})
	}

	for k := 0; k < h.n(6000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d := int32(1+h.intn(16)), int32(1+h.intn(16))
		nv := 3 + h.intn(10)
		h.do("mark", sprint("seed", seed, "w", w, "d", d, "corners", nv), func() {
			hf := vfield(h, w, d, 3, 40)
			for i := range hf.BMin {
				b := float32(h.intn(41) - 20)
				hf.BMin[i] += b
				hf.BMax[i] += b
			}
			hf.Cs = []float32{0.25, 0.3, 1, 2}[h.intn(4)]
			chf := &CompactHeightfield{}
			BuildCompactHeightfield(ctx, 1, 5, hf, chf)
			// corners on an ellipse, in order
			cx := float64(chf.BMin[0]) + float64(chf.Cs)*float64(w)*(h.rng.Float64()*2-0.5)
			cz := float64(chf.BMin[2]) + float64(chf.Cs)*float64(d)*(h.rng.Float64()*2-0.5)
			rx, rz := float64(chf.Cs)*float64(w)*h.rng.Float64(), float64(chf.Cs)*float64(d)*h.rng.Float64()
			a0, step := h.rng.Float64()*7, 2*math.Pi/float64(nv)
			if h.intn(2) == 0 {
				step = -step
			}
			verts := make([]float32, 0, 3*nv)
			for v := 0; v < nv; v++ {
				a := a0 + step*(float64(v)+0.8*(h.rng.Float64()-0.5))
				verts = append(verts, float32(cx+rx*math.Cos(a)), float32(h.intn(100)-50), float32(cz+rz*math.Sin(a)))
			}
			lo := float64(chf.BMin[1]) + float64(chf.Ch)*(float64(h.intn(60)-8)+0.5)
			hi := lo + float64(chf.Ch)*float64(h.intn(40))
			area := uint8(h.intn(64))
			was := append([]uint8{}, chf.Areas...)
			spans := append([]CompactSpan{}, chf.Spans...)
			orig := append([]float32{}, verts...)
			MarkConvexPolyArea(ctx, verts, int32(nv), float32(lo), float32(hi), area, chf)
			for i := range verts {
				h.ok(verts[i] == orig[i], "corners unchanged", "corner coordinate %d", i)
			}
			gx, gy, _ := links(chf)
			for i := range spans {
				h.ok(spans[i] == chf.Spans[i], "spans unchanged", "span %d", i)
				px := float64(chf.BMin[0]) + (float64(gx[i])+0.5)*float64(chf.Cs)
				pz := float64(chf.BMin[2]) + (float64(gy[i])+0.5)*float64(chf.Cs)
				in, near := true, false
				for v := 0; v < nv; v++ {
					u := (v + 1) % nv
					ax, az := float64(verts[3*v]), float64(verts[3*v+2])
					bx, bz := float64(verts[3*u]), float64(verts[3*u+2])
					side := ((bx-ax)*(pz-az) - (bz-az)*(px-ax)) * step
					l := math.Hypot(bx-ax, bz-az)
					if side < 0 {
						in = false
					}
					if l == 0 || math.Abs(side) <= 1e-4*(1+l)*math.Abs(step) {
						near = true
					}
				}
				y := (float64(chf.BMin[1]) + float64(chf.Ch)*float64(chf.Spans[i].Y))
				want := was[i]
				// the sampling of the heights: whole cells, the lowest one included,
				// rounded towards the bottom of the field
				slo := math.Trunc((lo - float64(chf.BMin[1])) / float64(chf.Ch))
				shi := math.Trunc((hi - float64(chf.BMin[1])) / float64(chf.Ch))
				fy := math.Floor((y-float64(chf.BMin[1]))/float64(chf.Ch) + 0.25)
				if want != 0 && in && fy >= slo && fy <= shi {
					want = area
				}
				if near && chf.Areas[i] == was[i] {
					continue
				}
				if near && want == was[i] && was[i] != 0 && fy >= slo && fy <= shi {
					want = area
				}
				if chf.Areas[i] != want {
					h.ok(false, "marked exactly the walkable spans inside", "span %d floor %d column %d,%d: area %d, was %d, want %d (inside %v, heights %v..%v)", i, chf.Spans[i].Y, gx[i], gy[i], chf.Areas[i], was[i], want, in, slo, shi)
					return
				}
			}
		})
	}
}
