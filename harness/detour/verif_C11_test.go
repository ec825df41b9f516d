package detour

// verif:share vgrid

import (
	"math"
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

// c11Bounds are the exact bounds of a polygon (with its detail vertices).
func c11Bounds(w *vworld, i int) (lo, hi [3]float64) {
	for k, v := range w.polys[i].verts {
		f := w.pos(v)
		for a := range f {
			x := float64(f[a])
			if k == 0 || x < lo[a] {
				lo[a] = x
			}
			if k == 0 || x > hi[a] {
				hi[a] = x
			}
		}
	}
	return
}

// c11Tree checks the node array of a tile against the polygons.
func c11Tree(h *vh, w *vworld, t *vtileg, what string) {
	tl := w.nav.TileByRef(t.ref)
	n := len(t.polys)
	tr := tl.BvTree
	h.ok(len(tr) >= 2*n-1, "tree size", "%d nodes for %d polygons: %s", len(tr), n, what)
	end := 2*n - 1
	leafOf := map[int32]int{}
	for j := 0; j < end; j++ {
		if tr[j].I >= 0 {
			_, dup := leafOf[tr[j].I]
			h.ok(!dup && int(tr[j].I) < n, "leaves", "leaf %d is polygon %d (again: %v): %s", j, tr[j].I, dup, what)
			leafOf[tr[j].I] = j
			// the leaf's box against the polygon
			lo, hi := c11Bounds(w, t.polys[tr[j].I])
			for a := 0; a < 3; a++ {
				l := (lo[a] - float64(tl.Header.BMin[a])) / float64(w.cs)
				u := (hi[a] - float64(tl.Header.BMin[a])) / float64(w.cs)
				h.ok(math.Abs(float64(tr[j].BMin[a])-l) < 1.01 && math.Abs(float64(tr[j].BMax[a])-u) < 1.01, "leaf box", "leaf %d axis %d: [%d %d], polygon [%v %v]: %s", j, a, tr[j].BMin[a], tr[j].BMax[a], l, u, what)
			}
			continue
		}
		e := j - int(tr[j].I)
		h.ok(e <= end, "skip", "node %d skips to %d of %d: %s", j, e, end, what)
		var lo, hi [3]uint16
		for a := 0; a < 3; a++ {
			lo[a], hi[a] = 0xffff, 0
			for k := j + 1; k < e; k++ {
				if tr[k].I >= 0 {
					if tr[k].BMin[a] < lo[a] {
						lo[a] = tr[k].BMin[a]
					}
					if tr[k].BMax[a] > hi[a] {
						hi[a] = tr[k].BMax[a]
					}
				}
				h.ok(tr[j].BMin[a] <= tr[k].BMin[a] && tr[k].BMax[a] <= tr[j].BMax[a], "containment", "node %d does not contain %d: %s", j, k, what)
			}
		}
		h.ok(lo == tr[j].BMin && hi == tr[j].BMax, "tightness", "node %d: %v %v, leaves below %v %v: %s", j, tr[j].BMin, tr[j].BMax, lo, hi, what)
		// two subtrees below, one after the other
		c1 := j + 1
		e1 := c1 + 1
		if tr[c1].I < 0 {
			e1 = c1 - int(tr[c1].I)
		}
		h.ok(e1 < e, "two subtrees", "node %d [%d %d]: %s", j, e1, e, what)
		e2 := e1 + 1
		if tr[e1].I < 0 {
			e2 = e1 - int(tr[e1].I)
		}
		h.ok(e2 == e, "two subtrees", "node %d ends at %d, second child at %d: %s", j, e, e2, what)
	}
	h.ok(len(leafOf) == n, "leaves", "%d leaves for %d polygons: %s", len(leafOf), n, what)
	h.ok(n == 1 || int(-tr[0].I) == end, "root", "root skips %d of %d: %s", -tr[0].I, end, what)
}

// c11Quant is the quantised query box.
func c11Quant(tl *MeshTile, lo, hi []float32) (a, b [3]uint16) {
	f := tl.Header.BvQuantFactor
	for k := 0; k < 3; k++ {
		l, u := lo[k], hi[k]
		if l < tl.Header.BMin[k] {
			l = tl.Header.BMin[k]
		} else if l > tl.Header.BMax[k] {
			l = tl.Header.BMax[k]
		}
		if u < tl.Header.BMin[k] {
			u = tl.Header.BMin[k]
		} else if u > tl.Header.BMax[k] {
			u = tl.Header.BMax[k]
		}
		a[k] = uint16(f*(l-tl.Header.BMin[k])) &^ 1
		b[k] = uint16(f*(u-tl.Header.BMin[k])+1) | 1
	}
	return
}

func c11Filter(h *vh) *StandardQueryFilter {
	f := NewStandardQueryFilter()
	f.SetIncludeFlags(0xffff)
	f.SetExcludeFlags(0)
	if h.intn(3) == 0 {
		f.SetIncludeFlags(uint16(h.intn(16)))
		f.SetExcludeFlags(uint16(1 << uint(h.intn(6))))
	}
	return f
}

func TestVerifC11(t *testing.T) {
	h := newVH(t, "box queries against every leaf and every polygon of generated meshes; built trees against their leaves")
	defer h.done()

	for k := 0; k < h.n(6000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("queries", sprint("seed", seed), func() {
			o := vopt{maxW: 1 + h.intn(14), nobv: h.intn(4) == 0, single: h.intn(2) == 0, conns: h.intn(3), noMerge: h.intn(3) == 0}
			if h.intn(4) == 0 {
				o.jitter = true
			}
			plain := h.intn(3) == 0
			if plain {
				o.conns = 0
			}
			w := newVWorld(h, o)
			for _, tl := range w.tiles {
				if plain {
					p := tl.params
					p.DetailMeshes, p.DetailVerts, p.DetailTris = nil, nil, nil
					p.DetailVertsCount, p.DetailTriCount = 0, 0
				}
			}
			if o.conns > 0 {
				// tiles with connections: the first slot must not stay empty
				for i := range w.tiles {
					w.tiles[i].params.OffMeshConCount = 0
					w.tiles[i].params.OffMeshConVerts = nil
				}
			}
			w.build(h)
			st, q := NewNavMeshQuery(w.nav, 64)
			h.ok(StatusSucceed(st), "query", "%v", st)
			for _, tl := range w.tiles {
				if o.nobv {
					h.ok(len(w.nav.TileByRef(tl.ref).BvTree) == 0, "no tree", "%d nodes", len(w.nav.TileByRef(tl.ref).BvTree))
				} else {
					c11Tree(h, w, tl, w.desc)
				}
			}
			sx, sz := float32(w.gw*w.step)*w.cs, float32(w.gd*w.step)*w.cs
			for r := 0; r < 12; r++ {
				var c, e [3]float32
				for a := 0; a < 3; a++ {
					s := []float32{sx, 8 * w.ch, sz}[a]
					c[a] = w.org[a] + (float32(h.rng.Float64())*1.4-0.2)*s
					e[a] = float32(h.rng.Float64()) * s * []float32{0.1, 0.4, 1.5}[h.intn(3)]
				}
				if h.intn(6) == 0 {
					e = [3]float32{} // a point
				}
				if h.intn(3) == 0 {
					e[1] = 50
				}
				f := c11Filter(h)
				lo := []float32{c[0] - e[0], c[1] - e[1], c[2] - e[2]}
				hi := []float32{c[0] + e[0], c[1] + e[1], c[2] + e[2]}
				what := sprint(w.desc, "box", lo, hi, "bv", !o.nobv)
				big := make([]PolyRef, len(w.polys)+8)
				n, st := q.queryPolygons6(c[:], e[:], f, big, int32(len(big)))
				h.ok(st == Success && int(n) <= len(w.polys), "query", "%v, %d polygons: %s", st, n, what)
				got := map[int]bool{}
				for _, rf := range big[:n] {
					i := w.find(rf)
					h.ok(i >= 0 && !got[i], "results", "reference %#x is no polygon or repeated: %s", rf, what)
					got[i] = true
				}
				for _, rf := range big[n:] {
					h.ok(rf == 0, "results", "%#x beyond the count: %s", rf, what)
				}
				marg := 3.05 * float64(w.cs)
				if o.nobv {
					marg = 1e-4 * (1 + math.Abs(float64(sx)) + math.Abs(float64(sz)))
				}
				for i, p := range w.polys {
					pass := p.flags&f.IncludeFlags() != 0 && p.flags&f.ExcludeFlags() == 0
					if !pass {
						h.ok(!got[i], "filter", "polygon %d does not pass: %s", i, what)
						continue
					}
					pl, ph := c11Bounds(w, i)
					meets, near := true, true
					for a := 0; a < 3; a++ {
						l, u := float64(lo[a]), float64(hi[a])
						meets = meets && l < ph[a]-1e-4 && u > pl[a]+1e-4
						near = near && l <= ph[a]+marg && u >= pl[a]-marg
					}
					if meets {
						h.ok(got[i], "missed", "polygon %d, bounds %v %v, is not reported: %s", i, pl, ph, what)
					}
					// queries are clamped to the tile, so a box outside it meets the border
					th := w.nav.TileByRef(w.tiles[p.tile].ref).Header
					if !near && !o.nobv {
						near = true
						for a := 0; a < 3; a++ {
							l := math.Min(math.Max(float64(lo[a]), float64(th.BMin[a])), float64(th.BMax[a]))
							u := math.Min(math.Max(float64(hi[a]), float64(th.BMin[a])), float64(th.BMax[a]))
							near = near && l <= ph[a]+marg && u >= pl[a]-marg
						}
					}
					if !near {
						h.ok(!got[i], "too many", "polygon %d, bounds %v %v, is reported: %s", i, pl, ph, what)
					}
				}
				// exactly the leaves that meet the quantised box, tile by tile
				for _, tg := range w.tiles {
					tl := w.nav.TileByRef(tg.ref)
					col := newCollectPolysQuery(make([]PolyRef, len(w.polys)+4), int32(len(w.polys)+4))
					q.queryPolygonsInTile(tl, lo, hi, f, col)
					want, all := map[PolyRef]bool{}, []PolyRef{}
					if o.nobv {
						for i := range tl.Polys[:tl.Header.PolyCount] {
							p := &tl.Polys[i]
							var bl, bh [3]float32
							for j := 0; j < int(p.VertCount); j++ {
								for a := 0; a < 3; a++ {
									x := tl.Verts[int(p.Verts[j])*3+a]
									if j == 0 || x < bl[a] {
										bl[a] = x
									}
									if j == 0 || x > bh[a] {
										bh[a] = x
									}
								}
							}
							in := true
							for a := 0; a < 3; a++ {
								in = in && lo[a] <= bh[a] && hi[a] >= bl[a]
							}
							if in {
								all = append(all, PolyRef(tg.ref)|PolyRef(i))
							}
						}
					} else {
						qa, qb := c11Quant(tl, lo, hi)
						for j := 0; j < 2*len(tg.polys)-1; j++ {
							nd := &tl.BvTree[j]
							in := nd.I >= 0
							for a := 0; a < 3; a++ {
								in = in && qa[a] <= nd.BMax[a] && nd.BMin[a] <= qb[a]
							}
							if in {
								all = append(all, PolyRef(tg.ref)|PolyRef(nd.I))
							}
						}
					}
					for _, rf := range all {
						if p := w.polys[w.find(rf)]; p.flags&f.IncludeFlags() != 0 && p.flags&f.ExcludeFlags() == 0 {
							want[rf] = true
						}
					}
					h.ok(int(col.numCollected) == len(want) && !col.overflow, "tile query", "%d polygons, %d leaves meet the box: %s", col.numCollected, len(want), what)
					for _, rf := range col.polys[:col.numCollected] {
						h.ok(want[rf], "tile query", "%#x does not meet the box: %s", rf, what)
						delete(want, rf)
					}
					// the mesh's own query (no filter); known finding: with a
					// tree, its results start at the second place
					mp := int32(h.intn(len(tg.polys) + 3))
					buf := make([]PolyRef, len(tg.polys)+8)
					mn := w.nav.queryPolygonsInTile(tl, lo, hi, buf, mp)
					wn := len(all)
					if wn > int(mp) {
						wn = int(mp)
					}
					h.ok(int(mn) == wn, "mesh query", "%d polygons (room for %d), %d meet the box: %s", mn, mp, len(all), what)
					set := map[PolyRef]bool{}
					for _, rf := range all {
						set[rf] = true
					}
					first := 0
					if mn > 0 && buf[0] == 0 && !o.nobv && buf[mn] != 0 {
						first = 1
					}
					for s, rf := range buf {
						in := s >= first && s < first+int(mn)
						h.ok(in == (rf != 0) && (!in || set[rf]), "mesh query", "%#x at %d of %d: %s", rf, s, mn, what)
						delete(set, rf)
					}
				}
				// a small buffer
				mp := h.intn(int(n) + 3)
				sm := make([]PolyRef, mp)
				n2, st2 := q.queryPolygons6(c[:], e[:], f, sm, int32(mp))
				wn, ws := int(n), Status(Success)
				if mp < wn {
					wn, ws = mp, Success|BufferTooSmall
				}
				h.ok(int(n2) == wn && st2 == ws, "buffer", "%d %v with room for %d of %d: %s", n2, st2, mp, n, what)
				seen := map[PolyRef]bool{}
				for _, rf := range sm[:n2] {
					h.ok(got[w.find(rf)] && !seen[rf], "buffer", "%#x with room for %d: %s", rf, mp, what)
					seen[rf] = true
				}
				// the nearest polygon is one of them
				fst, fr, _ := q.FindNearestPoly(d3.Vec3(c[:]), d3.Vec3(e[:]), f)
				h.ok(fst == Success && (fr == 0) == (n == 0), "nearest", "%v %#x of %d polygons: %s", fst, fr, n, what)
				if fr != 0 {
					h.ok(got[w.find(fr)], "nearest", "%#x is not among the polygons found: %s", fr, what)
				}
			}
		})
	}

	// the tree builder alone: any boxes
	for k := 0; k < h.n(20000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("subdivide", sprint("seed", seed), func() {
			n := 1 + h.intn(40)
			m := 1 + h.intn([]int{3, 50, 65535}[h.intn(3)])
			it := make([]bvItem, n)
			box := make([]bvItem, n)
			for i := range it {
				it[i].i = int32(i)
				for a := 0; a < 3; a++ {
					x, y := h.intn(m+1), h.intn(m+1)
					if x > y {
						x, y = y, x
					}
					if h.intn(3) == 0 {
						y = x
					}
					it[i].BMin[a], it[i].BMax[a] = uint16(x), uint16(y)
				}
				box[i] = it[i]
			}
			nodes := make([]BvNode, 2*n+3)
			for i := range nodes {
				nodes[i].I = -99
			}
			cur := int32(1)
			subdivide(it, int32(n), 0, int32(n), &cur, nodes)
			h.ok(cur == int32(2*n), "size", "%d nodes for %d boxes", cur-1, n)
			h.ok(nodes[0].I == -99 && nodes[2*n].I == -99, "size", "nodes outside the tree written")
			seen := map[int32]bool{}
			for j := 1; j < 2*n; j++ {
				nd := &nodes[j]
				if nd.I >= 0 {
					h.ok(!seen[nd.I] && int(nd.I) < n, "leaves", "polygon %d twice", nd.I)
					seen[nd.I] = true
					h.ok(nd.BMin == box[nd.I].BMin && nd.BMax == box[nd.I].BMax, "leaf box", "%v %v, polygon %v", nd.BMin, nd.BMax, box[nd.I])
					continue
				}
				e := j - int(nd.I)
				h.ok(e <= 2*n, "skip", "node %d skips to %d of %d", j, e, 2*n)
				lv := 0
				lo, hi := [3]uint16{65535, 65535, 65535}, [3]uint16{}
				for x := j + 1; x < e; x++ {
					if nodes[x].I >= 0 {
						lv++
					}
					for a := 0; a < 3; a++ {
						if nodes[x].BMin[a] < lo[a] {
							lo[a] = nodes[x].BMin[a]
						}
						if nodes[x].BMax[a] > hi[a] {
							hi[a] = nodes[x].BMax[a]
						}
					}
				}
				h.ok(2*lv-1 == e-j, "skip", "node %d skips %d nodes with %d leaves", j, e-j, lv)
				h.ok(lo == nd.BMin && hi == nd.BMax, "box", "node %d: %v %v, below %v %v", j, nd.BMin, nd.BMax, lo, hi)
			}
			h.ok(len(seen) == n, "leaves", "%d leaves for %d boxes", len(seen), n)
		})
	}

	// overlap tests
	for k := 0; k < h.n(20000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("overlap", sprint("seed", seed), func() {
			var u [4][3]uint16
			var f [4][3]float32
			m := []int{3, 65536}[h.intn(2)]
			want, wantf := true, true
			for a := 0; a < 3; a++ {
				for i := range u {
					u[i][a] = uint16(h.intn(m))
					f[i][a] = float32(h.intn(7)-3) / 2
				}
				for i := 0; i < 4; i += 2 {
					if u[i][a] > u[i+1][a] {
						u[i][a], u[i+1][a] = u[i+1][a], u[i][a]
					}
					if f[i][a] > f[i+1][a] {
						f[i][a], f[i+1][a] = f[i+1][a], f[i][a]
					}
				}
				want = want && u[0][a] <= u[3][a] && u[2][a] <= u[1][a]
				wantf = wantf && f[0][a] <= f[3][a] && f[2][a] <= f[1][a]
			}
			h.ok(OverlapQuantBounds(u[0][:], u[1][:], u[2][:], u[3][:]) == want && OverlapQuantBounds(u[2][:], u[3][:], u[0][:], u[1][:]) == want, "quantised", "%v: want %v", u, want)
			h.ok(OverlapBounds(f[0][:], f[1][:], f[2][:], f[3][:]) == wantf && OverlapBounds(f[2][:], f[3][:], f[0][:], f[1][:]) == wantf, "floating point", "%v: want %v", f, wantf)
		})
	}

	// known finding: the mesh's own tree query leaves the first place of its
	// result empty
	h.do("shift", "one polygon, mesh query", func() {
		w := newVWorld(h, vopt{maxW: 1, single: true, full: true, flat: true, noTris: true})
		w.build(h)
		tl := w.nav.TileByRef(w.tiles[0].ref)
		buf := make([]PolyRef, 4)
		n := w.nav.queryPolygonsInTile(tl, tl.Header.BMin[:], tl.Header.BMax[:], buf, 3)
		if n == 1 && buf[0] == 0 && buf[1] == w.polys[0].ref {
			h.known = append(h.known, "mesh query result shifted by one place")
		}
	})
}
