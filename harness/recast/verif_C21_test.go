package recast

import (
	"fmt"
	"sort"
	"testing"
)

func TestVerifC21(t *testing.T) {
	h := newVH(t, "random triangle sets of 1 to 400 triangles (scattered, gridded with equal coordinates, all on one line, repeated and flat triangles, large coordinates), 1 to 300 triangles per chunk: the tree compared with the triangles; rectangle and segment queries into small, exact and large buffers compared with a scan of the leaves")
	defer h.done()

	type set struct {
		verts []float32
		tris  []int32
		n     int32
		per   int32
	}
	gen := func() set {
		var s set
		kind := h.intn(5)
		coord := func() float32 {
			switch kind {
			case 0:
				return h.rng.Float32()*100 - 50
			case 1:
				return float32(h.intn(6))
			case 2:
				return float32(h.intn(2)) * 7
			case 3:
				return h.rng.Float32() * 1e6
			}
			return float32(h.intn(60)) * 0.5
		}
		s.n = int32(1 + h.intn(40))
		if h.intn(4) == 0 {
			s.n = int32(1 + h.intn(400))
		}
		nv := 1 + h.intn(int(s.n)*3)
		line := h.intn(6) == 0
		for i := 0; i < nv; i++ {
			x, y, z := coord(), coord(), coord()
			if line {
				z = 3
			}
			s.verts = append(s.verts, x, y, z)
		}
		local := h.intn(2) == 0
		for i := int32(0); i < s.n; i++ {
			a := h.intn(nv)
			for c := 0; c < 3; c++ {
				v := h.intn(nv)
				if local {
					v = (a + h.intn(3)) % nv
				}
				s.tris = append(s.tris, int32(v))
			}
		}
		s.per = int32(1 + h.intn(8))
		if h.intn(4) == 0 {
			s.per = int32(1 + h.intn(300))
		}
		return s
	}
	build := func(s set) *ChunkyTriMesh {
		cm := &ChunkyTriMesh{}
		v0 := append([]float32(nil), s.verts...)
		t0 := append([]int32(nil), s.tris...)
		h.ok(createChunkyTriMesh(s.verts, s.tris, s.n, s.per, cm), "built", "false returned")
		for i := range v0 {
			h.ok(v0[i] == s.verts[i], "inputs untouched", "coordinate %d", i)
		}
		for i := range t0 {
			h.ok(t0[i] == s.tris[i], "inputs untouched", "index %d", i)
		}
		return cm
	}
	desc := func(s set) string { return fmt.Sprintf("tris=%d per=%d verts=%v tris=%v", s.n, s.per, s.verts, s.tris) }

	for n := h.n(1500); n > 0; n-- {
		s := gen()
		h.do("tree", desc(s), func() {
			cm := build(s)
			h.ok(cm.Ntris == s.n && len(cm.Tris) >= int(3*s.n), "triangle count", "%d", cm.Ntris)
			h.ok(cm.Nnodes >= 1 && int(cm.Nnodes) <= len(cm.Nodes), "node count", "%d of %d", cm.Nnodes, len(cm.Nodes))
			count := map[[3]int32]int{}
			for i := int32(0); i < s.n; i++ {
				count[[3]int32{s.tris[3*i], s.tris[3*i+1], s.tris[3*i+2]}]++
			}
			listed := make([]bool, s.n)
			most := int32(0)
			for j := int32(0); j < cm.Nnodes; j++ {
				nd := cm.Nodes[j]
				if nd.I < 0 {
					h.ok(-nd.I > 1 && j-nd.I <= cm.Nnodes, "escape", "node %d escapes to %d of %d", j, j-nd.I, cm.Nnodes)
					for k := j + 1; k < j-nd.I && k < cm.Nnodes; k++ {
						c := cm.Nodes[k]
						h.ok(nd.BMin[0] <= c.BMin[0] && nd.BMin[1] <= c.BMin[1] && c.BMax[0] <= nd.BMax[0] && c.BMax[1] <= nd.BMax[1],
							"parent covers child", "node %d %v-%v, below it %d %v-%v", j, nd.BMin, nd.BMax, k, c.BMin, c.BMax)
						h.ok(c.I >= 0 || k-c.I <= j-nd.I, "nested", "node %d escapes past its parent %d", k, j)
					}
					continue
				}
				h.ok(nd.N >= 1 && nd.N <= s.per, "chunk size", "node %d has %d triangles, limit %d", j, nd.N, s.per)
				if nd.N > most {
					most = nd.N
				}
				for k := nd.I; k < nd.I+nd.N; k++ {
					h.ok(k < s.n && !listed[k], "listed once", "slot %d in node %d", k, j)
					listed[k] = true
					tr := [3]int32{cm.Tris[3*k], cm.Tris[3*k+1], cm.Tris[3*k+2]}
					count[tr]--
					h.ok(count[tr] >= 0, "same triangles", "%v appears too often", tr)
					for _, v := range tr {
						x, z := s.verts[3*v], s.verts[3*v+2]
						h.ok(nd.BMin[0] <= x && x <= nd.BMax[0] && nd.BMin[1] <= z && z <= nd.BMax[1],
							"leaf covers triangle", "node %d %v-%v, corner %v,%v", j, nd.BMin, nd.BMax, x, z)
					}
				}
			}
			for k := range listed {
				h.ok(listed[k], "every triangle listed", "slot %d in no chunk", k)
			}
			h.ok(cm.MaxTrisPerChunk == most, "largest chunk", "%d, want %d", cm.MaxTrisPerChunk, most)
		})
		h.do("queries", desc(s), func() {
			cm := build(s)
			pick := func() float32 {
				v := s.verts[h.intn(len(s.verts))]
				switch h.intn(3) {
				case 0:
					return v
				case 1:
					return v + h.rng.Float32()*4 - 2
				}
				return v*2 - 10
			}
			for q := 0; q < 4; q++ {
				a, b := [2]float32{pick(), pick()}, [2]float32{pick(), pick()}
				lo, hi := a, b
				for c := 0; c < 2; c++ {
					if lo[c] > hi[c] {
						lo[c], hi[c] = hi[c], lo[c]
					}
				}
				// must, may: leaves certainly met, leaves possibly met
				check := func(name string, ids []int32, max, n int, must, may func(nd ChunkyTriMeshNode) bool) {
					got := ids[:n]
					h.ok(sort.SliceIsSorted(got, func(i, j int) bool { return got[i] < got[j] }), name, "not in order: %v", got)
					has := map[int32]bool{}
					for _, id := range got {
						h.ok(id >= 0 && id < cm.Nnodes && !has[id], name, "repeated or bad chunk %d", id)
						has[id] = true
						nd := cm.Nodes[id]
						h.ok(nd.I >= 0 && may(nd), name, "chunk %d %v-%v does not meet %v %v", id, nd.BMin, nd.BMax, a, b)
					}
					if n < max {
						for j := int32(0); j < cm.Nnodes; j++ {
							nd := cm.Nodes[j]
							h.ok(nd.I < 0 || has[j] || !must(nd), name, "chunk %d %v-%v meets %v %v and is missing", j, nd.BMin, nd.BMax, a, b)
						}
					}
					for k := n; k < len(ids); k++ {
						h.ok(ids[k] == -7, name, "wrote past the result")
					}
				}
				for _, size := range []int{int(cm.Nnodes) + 2, 0, 1 + h.intn(4)} {
					ids := make([]int32, size)
					for i := range ids {
						ids[i] = -7
					}
					in := func(nd ChunkyTriMeshNode) bool {
						return lo[0] <= nd.BMax[0] && nd.BMin[0] <= hi[0] && lo[1] <= nd.BMax[1] && nd.BMin[1] <= hi[1]
					}
					n := cm.ChunksOverlappingRect(lo, hi, ids)
					h.ok(n <= size, "rectangle query", "%d results in %d slots", n, size)
					check("rectangle query", ids, size, n, in, in)
				}
				for _, max := range []int{int(cm.Nnodes) + 1, 0, 1 + h.intn(4)} {
					ids := make([]int32, max+2)
					for i := range ids {
						ids[i] = -7
					}
					// the part of the segment inside a rectangle grown by g
					meets := func(nd ChunkyTriMeshNode, g float64) bool {
						t0, t1 := 0.0, 1.0
						for c := 0; c < 2; c++ {
							p, d := float64(a[c]), float64(b[c])-float64(a[c])
							l, r := float64(nd.BMin[c])-g, float64(nd.BMax[c])+g
							if d == 0 {
								if p < l || p > r {
									return false
								}
								continue
							}
							x, y := (l-p)/d, (r-p)/d
							if x > y {
								x, y = y, x
							}
							if x > t0 {
								t0 = x
							}
							if y < t1 {
								t1 = y
							}
						}
						return t0 <= t1
					}
					g := 1e-5
					for _, v := range []float32{a[0], a[1], b[0], b[1]} {
						if x := float64(v) * 1e-5; x > g {
							g = x
						} else if -x > g {
							g = -x
						}
					}
					n := int(cm.chunksOverlappingSegment(a, b, ids, int32(max)))
					h.ok(n <= max, "segment query", "%d results in %d slots", n, max)
					check("segment query", ids, max, n,
						func(nd ChunkyTriMeshNode) bool {
							w := float64(nd.BMax[0]) - float64(nd.BMin[0])
							u := float64(nd.BMax[1]) - float64(nd.BMin[1])
							return w > 2*g && u > 2*g && meets(nd, -g)
						},
						func(nd ChunkyTriMeshNode) bool { return meets(nd, g+1e-4*float64(abs32(nd.BMin[0])+abs32(nd.BMax[0])+abs32(nd.BMin[1])+abs32(nd.BMax[1]))) })
				}
			}
		})
	}
}

func abs32(x float32) float32 {
	if x < 0 {
		return -x
	}
	return x
}
