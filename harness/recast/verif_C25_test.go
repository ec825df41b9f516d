package recast

import "testing"

func TestVerifC25(t *testing.T) {
	h := newVH(t, "random sets of polygons with 1 to 8 vertices in which no directed edge repeats, full and padded rows, shuffled lattices with up to 80000 edges: every cell of the array compared with a direct search; whole builds from random fields, with and without a border")
	defer h.done()

	// neighbours of every edge, by definition
	type edge struct{ a, b uint16 }
	rows := func(polys []uint16, np, nvp int) (out [][]uint16) {
		for i := 0; i < np; i++ {
			r := polys[i*nvp*2 : i*nvp*2+nvp]
			for len(r) > 0 && r[len(r)-1] == 0xffff {
				r = r[:len(r)-1]
			}
			out = append(out, r)
		}
		return
	}
	owners := func(polys []uint16, np, nvp int) (map[edge]int, bool) {
		own := map[edge]int{}
		for i, r := range rows(polys, np, nvp) {
			for j := range r {
				e := edge{r[j], r[(j+1)%len(r)]}
				if _, dup := own[e]; dup {
					return nil, false
				}
				own[e] = i
			}
		}
		return own, true
	}
	check := func(before, polys []uint16, np, nvp int) {
		own, ok := owners(before, np, nvp)
		if !ok {
			h.failf("harness", "repeated edge")
			return
		}
		want := append([]uint16(nil), before...)
		for i, r := range rows(before, np, nvp) {
			for j := range r {
				if k, ok := own[edge{r[(j+1)%len(r)], r[j]}]; ok && k != i {
					want[i*nvp*2+nvp+j] = uint16(k)
				}
			}
		}
		for s := range want {
			if polys[s] != want[s] {
				i, j := s/(2*nvp), s%(2*nvp)
				if j < nvp {
					h.failf("vertices untouched", "polygon %d vertex %d is %d, was %d", i, j, polys[s], want[s])
				} else {
					h.failf("neighbour", "polygon %d edge %d has neighbour %d, want %d", i, j-nvp, polys[s], want[s])
				}
				return
			}
		}
	}
	for n := h.n(3000); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		nverts := 3 + h.intn(6)
		if h.intn(3) == 0 {
			nverts = 3 + h.intn(60)
		}
		nvp := 3 + h.intn(6)
		maxp := 1 + h.intn(30)
		var polys []uint16
		np := 0
		used := map[edge]bool{}
		for try := 0; try < 300 && np < maxp; try++ {
			k := 3 + h.intn(nvp-2)
			switch h.intn(8) {
			case 0:
				k = nvp
			case 1:
				k = 1 + h.intn(nvp)
			}
			if k > nverts {
				continue
			}
			p := h.rng.Perm(nverts)[:k]
			fine := true
			for j := range p {
				fine = fine && !used[edge{uint16(p[j]), uint16(p[(j+1)%k])}]
			}
			if !fine {
				continue
			}
			row := make([]uint16, 2*nvp)
			for j := range row {
				row[j] = 0xffff
			}
			for j := range p {
				used[edge{uint16(p[j]), uint16(p[(j+1)%k])}] = true
				row[j] = uint16(p[j])
			}
			polys = append(polys, row...)
			np++
		}
		before := append([]uint16(nil), polys...)
		h.do("random polygons", sprint("seed nverts nvp polys", seed, nverts, nvp, before), func() {
			h.ok(buildMeshAdjacency(polys, int32(np), int32(nverts), int32(nvp)), "succeeds", "returned false")
			check(before, polys, np, nvp)
		})
	}
	// lattices of squares and triangles, vertices and polygons shuffled
	lattice := func(seed int64, w, d, nvp int) {
		h.rng.Seed(seed)
		id := h.rng.Perm((w + 1) * (d + 1))
		at := func(x, y int) uint16 { return uint16(id[x+y*(w+1)]) }
		var list [][]uint16
		for y := 0; y < d; y++ {
			for x := 0; x < w; x++ {
				q := []uint16{at(x, y), at(x, y+1), at(x+1, y+1), at(x+1, y)}
				if nvp > 3 && h.intn(3) > 0 {
					k := h.intn(4)
					list = append(list, append(append([]uint16(nil), q[k:]...), q[:k]...))
				} else if len(list)+w*d-(x+y*w) < 60000 {
					list = append(list, []uint16{q[0], q[1], q[2]}, []uint16{q[2], q[3], q[0]})
				} else {
					list = append(list, []uint16{q[1], q[2], q[3]})
				}
			}
		}
		polys := make([]uint16, 2*nvp*len(list))
		for i := range polys {
			polys[i] = 0xffff
		}
		for i, k := range h.rng.Perm(len(list)) {
			copy(polys[2*nvp*i:], list[k])
		}
		before := append([]uint16(nil), polys...)
		h.do("lattice", sprint("seed nvp", seed, w, d, nvp), func() {
			h.ok(buildMeshAdjacency(polys, int32(len(list)), int32((w+1)*(d+1)), int32(nvp)), "succeeds", "returned false")
			check(before, polys, len(list), nvp)
		})
	}
	for n := h.n(20); n > 0; n-- {
		lattice(h.rng.Int63(), 1+h.intn(40), 1+h.intn(40), 3+h.intn(5))
	}
	for n := h.n(1); n > 0; n-- {
		lattice(h.rng.Int63(), 199+h.intn(10), 190+h.intn(10), 4+h.intn(4))
		lattice(h.rng.Int63(), 150+h.intn(5), 180, 3)
	}

	// whole builds
	ctx := NewBuildContext(false)
	built := 0
	build := func(w, d, border, nvp int32, holes int) (*PolyMesh, *ContourSet) {
		hf := NewHeightfield(w, d, []float32{0, 0, 0}, []float32{float32(w), 20, float32(d)}, 1, 0.5)
		for y := int32(0); y < d; y++ {
			for x := int32(0); x < w; x++ {
				if holes > 0 && h.intn(40) < holes {
					continue
				}
				area := uint8(WalkableArea)
				if h.intn(10) == 0 {
					area = 5
				}
				hf.addSpan(x, y, 0, 2, area, 1)
			}
		}
		chf := &CompactHeightfield{}
		if !BuildCompactHeightfield(ctx, 3, 1, hf, chf) || !BuildRegionsMonotone(ctx, chf, border, 0, 5) {
			return nil, nil
		}
		cset := &ContourSet{}
		if !BuildContours(ctx, chf, 1, 12, cset, ContourTessWallEdges) {
			return nil, nil
		}
		mesh, ok := BuildPolyMesh(ctx, cset, nvp)
		if !ok {
			return nil, nil
		}
		return mesh, cset
	}
	for n := h.n(600); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w, d := int32(6+h.intn(20)), int32(6+h.intn(20))
		border := int32(h.intn(3) * 2)
		nvp := int32(3 + h.intn(4))
		holes := h.intn(12)
		h.do("build", sprint("seed", seed), func() {
			// what the other stages do with odd input is not this property's
			var mesh *PolyMesh
			var cset *ContourSet
			func() {
				defer func() { recover() }()
				mesh, cset = build(w, d, border, nvp, holes)
			}()
			if mesh == nil {
				return
			}
			built++
			own, once := owners(mesh.Polys, int(mesh.NPolys), int(nvp))
			if !once {
				return
			}
			// the field within the border
			iw, id := int(cset.Width), int(cset.Height)
			for i, r := range rows(mesh.Polys, int(mesh.NPolys), int(nvp)) {
				for j := range r {
					a, b := r[j], r[(j+1)%len(r)]
					got := mesh.Polys[i*int(nvp)*2+int(nvp)+j]
					want := uint16(0xffff)
					if k, ok := own[edge{b, a}]; ok && k != i {
						want = uint16(k)
					} else if border > 0 {
						ax, az := int(mesh.Verts[3*a]), int(mesh.Verts[3*a+2])
						bx, bz := int(mesh.Verts[3*b]), int(mesh.Verts[3*b+2])
						switch {
						case ax == 0 && bx == 0:
							want = 0x8000
						case az == id && bz == id:
							want = 0x8001
						case ax == iw && bx == iw:
							want = 0x8002
						case az == 0 && bz == 0:
							want = 0x8003
						}
					}
					if got != want {
						h.failf("built neighbour", "polygon %d edge %d (%d to %d) has neighbour %#x, want %#x", i, j, a, b, got, want)
						return
					}
				}
			}
		})
	}
	t.Log(built, "builds compared")
}
