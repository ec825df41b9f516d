package recast

import (
	"math/big"
	"testing"
)

type vpt struct{ x, z int64 }

func (p vpt) arr() []int32 { return []int32{int32(p.x), 7, int32(p.z), 1} }

// vcross is the exact orientation of (a,b,c).
func vcross(a, b, c vpt) int {
	l := new(big.Int).Mul(big.NewInt(b.x-a.x), big.NewInt(c.z-a.z))
	r := new(big.Int).Mul(big.NewInt(c.x-a.x), big.NewInt(b.z-a.z))
	return l.Cmp(r)
}

func von(a, b, c vpt) bool {
	between := func(p, q, r int64) bool { return p <= r && r <= q || q <= r && r <= p }
	return vcross(a, b, c) == 0 && between(a.x, b.x, c.x) && between(a.z, b.z, c.z)
}

func vcut(a, b, c, d vpt) bool {
	return vcross(a, b, c)*vcross(a, b, d) < 0 && vcross(c, d, a)*vcross(c, d, b) < 0
}

func vmeets(a, b, c, d vpt) bool {
	return vcut(a, b, c, d) || von(a, b, c) || von(a, b, d) || von(c, d, a) || von(c, d, b)
}

func vcone(pi, pj, pn, pp vpt, loose bool) bool {
	if vcross(pp, pi, pn) <= 0 {
		l, r := vcross(pi, pj, pp), vcross(pj, pi, pn)
		if loose {
			return l <= 0 && r <= 0
		}
		return l < 0 && r < 0
	}
	return !(vcross(pi, pj, pn) <= 0 && vcross(pj, pi, pp) <= 0)
}

func TestVerifC20(t *testing.T) {
	h := newVH(t, "orientation, betweenness, intersection, cone and diagonal tests against big-integer geometry, coordinates 0..65535, many collinear and touching configurations; index helpers")
	defer h.done()
	var scale int64
	rp := func() vpt {
		switch h.intn(6) {
		case 0:
			return vpt{int64(h.intn(2)) * 65535, int64(h.intn(2)) * 65535}
		case 1:
			return vpt{int64(h.intn(65536)), int64(h.intn(65536))}
		}
		return vpt{int64(h.intn(4)) * scale, int64(h.intn(4)) * scale}
	}
	for k := 0; k < h.n(60000); k++ {
		scale = []int64{1, 1, 7, 1000, 16384, 21845}[h.intn(6)]
		a, b, c, d := rp(), rp(), rp(), rp()
		if h.intn(3) == 0 { // a point of the line through a and b
			m := int64(h.intn(5)) - 1
			q := vpt{a.x + (b.x-a.x)/4*m, a.z + (b.z-a.z)/4*m}
			if q.x >= 0 && q.x < 65536 && q.z >= 0 && q.z < 65536 {
				c = q
			}
		}
		h.do("predicates", sprint(a, b, c, d), func() {
			A, B, C, D := a.arr(), b.arr(), c.arr(), d.arr()
			o := vcross(a, b, c)
			h.ok(left(A, B, C) == (o < 0), "left", "got %v", left(A, B, C))
			h.ok(leftOn(A, B, C) == (o <= 0), "leftOn", "got %v", leftOn(A, B, C))
			h.ok(collinear(A, B, C) == (o == 0), "collinear", "got %v", collinear(A, B, C))
			U, V, W := []uint16{uint16(a.x), 9, uint16(a.z)}, []uint16{uint16(b.x), 9, uint16(b.z)}, []uint16{uint16(c.x), 9, uint16(c.z)}
			h.ok(uleft(U, V, W) == (o < 0), "uleft", "got %v", uleft(U, V, W))
			h.ok(vequal(A, B) == (a == b), "vequal", "")
			h.ok(intersectProp(A, B, C, D) == vcut(a, b, c, d), "intersectProp", "got %v", intersectProp(A, B, C, D))
			if a != b {
				h.ok(between(A, B, C) == von(a, b, c), "between", "got %v", between(A, B, C))
				if c != d {
					h.ok(intersect(A, B, C, D) == vmeets(a, b, c, d), "intersect", "got %v", intersect(A, B, C, D))
				}
			}
		})
	}
	for n := int32(1); n < 9; n++ {
		for i := int32(0); i < n; i++ {
			h.do("index", sprint("i", i, "n", n), func() {
				h.ok(next(i, n) == (i+1)%n, "next", "got %d", next(i, n))
				h.ok(prev(i, n) == (i+n-1)%n, "prev", "got %d", prev(i, n))
			})
		}
	}
	for k := 0; k < h.n(6000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		n := int32(3 + h.intn(8))
		scale = []int64{1, 1, 3, 16384, 21845}[h.intn(5)]
		var ps []vpt
		for len(ps) < int(n) {
			p := rp()
			if len(ps) > 0 && ps[len(ps)-1] == p || len(ps) == int(n)-1 && ps[0] == p {
				continue
			}
			ps = append(ps, p)
		}
		// vertices stored in a permuted order, index flags in the high bits
		perm := h.rng.Perm(int(n))
		verts, cont := make([]int32, 4*n), make([]int32, 0, 4*n)
		idx := make([]int64, n)
		for i := range ps {
			copy(verts[4*perm[i]:], ps[i].arr())
			cont = append(cont, ps[i].arr()...)
			idx[i] = int64(perm[i])
			if h.intn(2) == 0 {
				idx[i] |= 0x80000000
			}
		}
		i, j := int32(h.intn(int(n))), int32(h.intn(int(n)))
		ext := rp()
		h.do("polygon", sprint("seed", seed, "points", ps, "i", i, "j", j, ext), func() {
			at := func(k int32) vpt { return ps[(k+2*n)%n] }
			c0 := vcone(at(i), at(j), at(i+1), at(i-1), false)
			c1 := vcone(at(i), at(j), at(i+1), at(i-1), true)
			h.ok(inCone5(i, j, n, verts, idx) == c0, "inCone5", "got %v", !c0)
			h.ok(inConeLoose(i, j, n, verts, idx) == c1, "inConeLoose", "got %v", !c1)
			c4 := vcone(at(i), ext, at(i+1), at(i-1), false)
			h.ok(inCone4(i, n, cont, ext.arr()) == c4, "inCone4", "got %v", !c4)
			if at(i) != at(j) {
				free, freeL := true, true
				for k := int32(0); k < n; k++ {
					k1 := (k + 1) % n
					if k == i || k1 == i || k == j || k1 == j {
						continue
					}
					p, q := at(k), at(k1)
					if p == at(i) || p == at(j) || q == at(i) || q == at(j) {
						continue
					}
					free = free && !vmeets(at(i), at(j), p, q)
					freeL = freeL && !vcut(at(i), at(j), p, q)
				}
				h.ok(diagonalie(i, j, n, verts, idx) == free, "diagonalie", "got %v", !free)
				h.ok(diagonalieLoose(i, j, n, verts, idx) == freeL, "diagonalieLoose", "got %v", !freeL)
				h.ok(diagonal(i, j, n, verts, idx) == (free && c0), "diagonal", "got %v", !(free && c0))
				h.ok(diagonalLoose(i, j, n, verts, idx) == (freeL && c1), "diagonalLoose", "got %v", !(freeL && c1))
			}
			if ext != at(j) {
				hit := false
				for k := int32(0); k < n; k++ {
					k1 := (k + 1) % n
					p, q := at(k), at(k1)
					if k == i || k1 == i || p == ext || q == ext || p == at(j) || q == at(j) {
						continue
					}
					hit = hit || vmeets(ext, at(j), p, q)
				}
				h.ok(intersectSegCountour(ext.arr(), at(j).arr(), i, n, cont) == hit, "intersectSegCountour", "got %v", !hit)
			}
		})
	}
}
