package recast

import (
	"math"
	"math/big"
	"testing"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t, "bounds, grid size, slope marking on random, degenerate and extreme vertex sets, compared with exact or reference computations")
	defer h.done()
	rf := func() float32 {
		switch h.intn(6) {
		case 0:
			return float32(h.intn(7)) - 3
		case 1:
			return float32(math.Ldexp(h.rng.Float64()-0.5, h.intn(60)-20))
		case 2:
			return []float32{0, float32(math.Copysign(0, -1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1))}[h.intn(7)]
		}
		return float32(h.rng.NormFloat64() * 10)
	}
	for k := 0; k < h.n(4000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		nv := 1 + h.intn(9)
		if h.intn(20) == 0 {
			nv = 1 + h.intn(300)
		}
		extra := h.intn(3)
		vs := make([]float32, 3*nv+3*extra)
		for i := range vs {
			vs[i] = rf()
		}
		for i := 3 * nv; i < len(vs); i++ { // beyond nv: must not count
			vs[i] = []float32{math.MaxFloat32, -math.MaxFloat32}[h.intn(2)]
		}
		h.do("CalcBounds", sprint("seed", seed, "nv", nv), func() {
			keep := append([]float32{}, vs...)
			mn, mx := []float32{7, 7, 7, 77}, []float32{8, 8, 8, 88}
			CalcBounds(vs, int32(nv), mn, mx)
			for c := 0; c < 3; c++ {
				lo, hi := vs[c], vs[c]
				for i := 0; i < nv; i++ {
					if vs[3*i+c] < lo {
						lo = vs[3*i+c]
					}
					if vs[3*i+c] > hi {
						hi = vs[3*i+c]
					}
				}
				h.ok(mn[c] == lo && mx[c] == hi, "componentwise minimum and maximum", "component %d: [%v %v], want [%v %v] of %v", c, mn[c], mx[c], lo, hi, vs[:3*nv])
			}
			h.ok(mn[3] == 77 && mx[3] == 88, "only the bounds are written", "")
			for i := range keep {
				h.ok(keep[i] == vs[i], "vertices unchanged", "")
			}
		})
	}
	for k := 0; k < h.n(20000); k++ {
		lo := [3]float32{float32(h.rng.NormFloat64() * 100), 5, float32(h.rng.NormFloat64() * 100)}
		hi := [3]float32{lo[0] + float32(h.rng.Float64()*400), 6, lo[2] + float32(h.rng.Float64()*400)}
		cs := float32(0.05 + h.rng.Float64()*2)
		if h.intn(2) == 0 {
			lo = [3]float32{float32(h.intn(50)), 0, float32(h.intn(50))}
			hi = [3]float32{lo[0] + float32(h.intn(50)), 0, lo[2] + float32(h.intn(50))}
			cs = []float32{0.5, 0.25, 1, 2, 4}[h.intn(5)]
		}
		h.do("CalcGridSize", sprint("bmin", lo, "bmax", hi, "cs", cs), func() {
			w, d := CalcGridSize(lo[:], hi[:], cs)
			for i, g := range []int32{w, d} {
				q := (float64(hi[2*i]) - float64(lo[2*i])) / float64(cs)
				h.ok(math.Abs(float64(g)-q) <= 0.5+1e-3, "rounded to nearest", "axis %d: %d for %v cells", 2*i, g, q)
			}
		})
	}
	for k := 0; k < h.n(4000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		nv, nt := 3+h.intn(8), h.intn(9)
		vs := make([]float32, 3*nv)
		for i := range vs {
			vs[i] = float32(h.rng.NormFloat64() * 5)
			if h.intn(3) == 0 {
				vs[i] = float32(h.intn(5))
			}
		}
		extra := h.intn(3)
		tris := make([]int32, 3*nt)
		for i := range tris {
			tris[i] = int32(h.intn(nv))
		}
		areas := make([]uint8, nt+extra)
		for i := range areas {
			areas[i] = uint8(h.intn(70))
		}
		angle := float32(h.intn(90))
		clear := h.intn(2) == 0
		h.do("slopes", sprint("seed", seed, "nv", nv, "nt", nt, "angle", angle, "clear", clear), func() {
			before := append([]uint8{}, areas...)
			vs0, tr0 := append([]float32{}, vs...), append([]int32{}, tris...)
			if clear {
				ClearUnwalkableTriangles(nil, angle, vs, int32(nv), tris, int32(nt), areas)
			} else {
				MarkWalkableTriangles(nil, angle, vs, int32(nv), tris, int32(nt), areas)
			}
			thr := math.Cos(float64(angle) / 180 * math.Pi)
			for i := range areas {
				if i >= nt {
					h.ok(areas[i] == before[i], "entries past nt unchanged", "")
					continue
				}
				p := func(j, c int) *big.Float {
					return big.NewFloat(float64(vs[3*tris[3*i+j]+int32(c)])).SetPrec(200)
				}
				sub := func(j, c int) *big.Float { return new(big.Float).SetPrec(200).Sub(p(j, c), p(0, c)) }
				mul := func(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(200).Mul(a, b) }
				cr := func(a, b int) float64 {
					f, _ := new(big.Float).SetPrec(200).Sub(mul(sub(1, a), sub(2, b)), mul(sub(1, b), sub(2, a))).Float64()
					return f
				}
				nx, ny, nz := cr(1, 2), cr(2, 0), cr(0, 1)
				l := math.Sqrt(nx*nx + ny*ny + nz*nz)
				want := before[i]
				switch {
				case tris[3*i] == tris[3*i+1] || tris[3*i] == tris[3*i+2]:
					// no area: no normal, so neither rule applies
				case l < 1e-2 || math.Abs(ny/l-thr) < 1e-3:
					continue // too close to call in single precision
				case ny/l > thr && !clear:
					want = WalkableArea
				case ny/l <= thr && clear:
					want = nullArea
				}
				h.ok(areas[i] == want, "area of a triangle", "triangle %d: %d, want %d (normal y %v, threshold %v, before %d)", i, areas[i], want, ny/l, thr, before[i])
			}
			for i := range vs {
				h.ok(vs[i] == vs0[i], "vertices unchanged", "")
			}
			for i := range tris {
				h.ok(tris[i] == tr0[i], "triangles unchanged", "")
			}
		})
	}
}
