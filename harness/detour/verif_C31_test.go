package detour

// verif:share vgrid

import (
	"math"
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

// randomTile makes a tile whose polygons own random disjoint link lists.
func c31Tile(h *vh, np int) *MeshTile {
	t := &MeshTile{Salt: 1, Header: &MeshHeader{PolyCount: int32(np)}}
	nv := 6 + h.intn(10)
	t.Verts = make([]float32, 3*nv)
	for i := range t.Verts {
		t.Verts[i] = float32(h.intn(2000)-1000) / 8
	}
	t.Polys = make([]Poly, np)
	for i := range t.Polys {
		p := &t.Polys[i]
		p.FirstLink = nullLink
		p.VertCount = uint8(3 + h.intn(4))
		for j := range p.Verts {
			p.Verts[j] = uint16(h.intn(nv))
		}
		if h.intn(3) == 0 {
			p.SetType(polyTypeOffMeshConnection)
			p.VertCount = 2
		}
		p.SetArea(uint8(h.intn(64)))
	}
	return t
}

func TestVerifC31(t *testing.T) {
	h := newVH(t, "portals against the link lists of random tiles and against the geometry of generated meshes")
	defer h.done()
	for k := 0; k < h.n(12000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("lists", sprint("seed", seed), func() {
			m := &NavMesh{}
			m.tileBits, m.polyBits, m.saltBits = 2, 4, 26
			nt := 1 + h.intn(3)
			m.Tiles = make([]MeshTile, nt)
			m.MaxTiles = int32(nt)
			np := 1 + h.intn(6)
			for i := range m.Tiles {
				m.Tiles[i] = *c31Tile(h, np)
			}
			type pl struct{ t, p int }
			ref := func(x pl) PolyRef { return m.polyRefBase(&m.Tiles[x.t]) | PolyRef(x.p) }
			lists := map[pl][]Link{}
			for i := range m.Tiles {
				tl := &m.Tiles[i]
				n := h.intn(14)
				perm := h.rng.Perm(n + h.intn(3))
				tl.Links = make([]Link, len(perm))
				for j := range tl.Links {
					tl.Links[j] = Link{Ref: PolyRef(h.u32()), Next: nullLink, Edge: uint8(h.intn(6))}
				}
				for j := 0; j < n; j++ {
					from := pl{i, h.intn(np)}
					to := pl{h.intn(nt), h.intn(np)}
					fp, tp := &tl.Polys[from.p], &m.Tiles[to.t].Polys[to.p]
					l := Link{Ref: ref(to), Next: fp.FirstLink, Edge: uint8(h.intn(int(fp.VertCount))), Side: 0xff}
					if h.intn(2) == 0 {
						l.Side = uint8(h.intn(8))
						l.BMin, l.BMax = uint8(h.intn(256)), uint8(h.intn(256))
						if h.intn(4) == 0 {
							l.BMin, l.BMax = 0, 255
						} else if h.intn(2) == 0 {
							l.BMin, l.BMax = uint8(h.intn(3)), uint8(255-h.intn(3))
						}
					}
					if tp.Type() == polyTypeOffMeshConnection && fp.Type() != polyTypeOffMeshConnection && h.intn(2) == 0 {
						l.Edge = 0xff
					}
					tl.Links[perm[j]] = l
					fp.FirstLink = uint32(perm[j])
					lists[from] = append([]Link{l}, lists[from]...)
				}
			}
			q := &NavMeshQuery{nav: m}
			for j := 0; j < 30; j++ {
				from, to := pl{h.intn(nt), h.intn(np)}, pl{h.intn(nt), h.intn(np)}
				if h.intn(2) == 0 && len(lists[from]) > 0 {
					l := lists[from][h.intn(len(lists[from]))]
					var s, it, ip uint32
					m.DecodePolyID(l.Ref, &s, &it, &ip)
					to = pl{int(it), int(ip)}
				}
				ft, tt := &m.Tiles[from.t], &m.Tiles[to.t]
				fp, tp := &ft.Polys[from.p], &tt.Polys[to.p]
				find := func(a pl, r PolyRef) []Link {
					var out []Link
					for _, l := range lists[a] {
						if l.Ref == r {
							out = append(out, l)
						}
					}
					return out
				}
				fl, bl := find(from, ref(to)), find(to, ref(from))
				linked := len(fl) > 0
				if fp.Type() != polyTypeOffMeshConnection && tp.Type() == polyTypeOffMeshConnection {
					linked = linked && len(bl) > 0
					if len(bl) > 0 && bl[0].Edge == 0xff {
						continue
					}
				}
				left, right, mid := d3.Vec3{-7, -8, -9}, d3.Vec3{-4, -5, -6}, d3.Vec3{1, 2, 3}
				l2, r2 := d3.Vec3{-7, -8, -9}, d3.Vec3{-4, -5, -6}
				st := q.portalPoints8(ref(from), fp, ft, ref(to), tp, tt, left, right)
				h.ok(StatusFailed(st) == !linked && (st == Success) == linked, "portal status", "from %v to %v: status %v, linked %v", from, to, st, linked)
				sm := q.edgeMidPoint(ref(from), fp, ft, ref(to), tp, tt, mid)
				h.ok((sm == Success) == linked && StatusFailed(sm) == !linked, "mid status", "status %v", sm)
				var ty1, ty2 uint8
				s6 := q.portalPoints6(ref(from), ref(to), l2, r2, &ty1, &ty2)
				h.ok((s6 == Success) == linked, "portal by reference", "status %v, linked %v", s6, linked)
				h.ok(ty1 == fp.Type() && ty2 == tp.Type(), "types", "got %v %v", ty1, ty2)
				if !linked {
					h.ok(left[0] == -7 && left[1] == -8 && left[2] == -9 && right[0] == -4 && right[1] == -5 && right[2] == -6, "portal touched", "no portal, but %v %v", left, right)
					h.ok(mid[0] == 1 && mid[1] == 2 && mid[2] == 3, "mid touched", "no portal, but %v", mid)
					continue
				}
				vec := func(tl *MeshTile, p *Poly, e int) [3]float32 {
					i := 3 * int(p.Verts[e])
					return [3]float32{tl.Verts[i], tl.Verts[i+1], tl.Verts[i+2]}
				}
				match := false
				switch {
				case fp.Type() == polyTypeOffMeshConnection:
					for _, l := range fl {
						v := vec(ft, fp, int(l.Edge))
						match = match || (v == [3]float32{left[0], left[1], left[2]} && v == [3]float32{right[0], right[1], right[2]})
					}
				case tp.Type() == polyTypeOffMeshConnection:
					for _, l := range bl {
						if l.Edge != 0xff {
							v := vec(tt, tp, int(l.Edge))
							match = match || (v == [3]float32{left[0], left[1], left[2]} && v == [3]float32{right[0], right[1], right[2]})
						}
					}
				default:
					for _, l := range fl {
						a, b := vec(ft, fp, int(l.Edge)), vec(ft, fp, (int(l.Edge)+1)%int(fp.VertCount))
						t0, t1 := float64(0), float64(1)
						if l.Side != 0xff {
							t0, t1 = float64(l.BMin)/255, float64(l.BMax)/255
						}
						good := true
						for c := 0; c < 3; c++ {
							wa := float64(a[c]) + (float64(b[c])-float64(a[c]))*t0
							wb := float64(a[c]) + (float64(b[c])-float64(a[c]))*t1
							good = good && math.Abs(wa-float64(left[c])) < 1e-3 && math.Abs(wb-float64(right[c])) < 1e-3
						}
						match = match || good
					}
				}
				h.ok(match, "portal points", "from %v to %v: %v %v", from, to, left, right)
				for c := 0; c < 3; c++ {
					h.ok(l2[c] == left[c] && r2[c] == right[c], "portal by reference differs", "%v %v against %v %v", l2, r2, left, right)
					h.ok(math.Abs(float64(mid[c])-(float64(left[c])+float64(right[c]))/2) < 1e-3, "mid point", "%v of %v %v", mid, left, right)
				}
				// dead references
				dead := PolyRef(uint32(ref(to)) ^ 1<<6)
				d1, d2 := d3.Vec3{1, 1, 1}, d3.Vec3{2, 2, 2}
				h.ok(StatusFailed(q.portalPoints6(ref(from), dead, d1, d2, &ty1, &ty2)) && d1[0] == 1 && d2[0] == 2, "dead neighbour", "portal to a dead reference")
				h.ok(StatusFailed(q.portalPoints6(dead, ref(to), d1, d2, &ty1, &ty2)) && d1[0] == 1 && d2[0] == 2, "dead start", "portal from a dead reference")
			}
		})
	}
	for k := 0; k < h.n(150); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("meshes", sprint("seed", seed), func() {
			w := newVWorld(h, vopt{})
			w.build(h)
			_, q := NewNavMeshQuery(w.nav, 512)
			for i, p := range w.polys {
				for j, o := range w.polys {
					if i == j {
						continue
					}
					left, right := d3.Vec3{0, 0, 0}, d3.Vec3{0, 0, 0}
					var a, b uint8
					st := q.portalPoints6(p.ref, o.ref, left, right, &a, &b)
					h.ok((st == Success) == p.adj[j], "neighbours", "%s: portal from %d to %d: status %v, adjacent %v", w.desc, i, j, st, p.adj[j])
					if !p.adj[j] {
						continue
					}
					lo, hi, ok := w.shared(i, j)
					h.ok(ok, "world", "no shared edge")
					tol := 0.02 * float64(2*w.step) * float64(w.cs)
					for c := 0; c < 3; c += 2 {
						d1 := math.Abs(float64(left[c]-lo[c])) + math.Abs(float64(right[c]-hi[c]))
						d2 := math.Abs(float64(left[c]-hi[c])) + math.Abs(float64(right[c]-lo[c]))
						h.ok(d1 < tol || d2 < tol, "portal geometry", "%s: portal from %d to %d is %v %v, shared edge %v %v", w.desc, i, j, left, right, lo, hi)
					}
					// left and right as seen when walking out of the polygon
					ce := w.center(i)
					ar := float64(left[0]-ce[0])*float64(right[2]-ce[2]) - float64(right[0]-ce[0])*float64(left[2]-ce[2])
					h.ok(ar < 0, "portal sides", "%s: portal from %d to %d: left %v and right %v swapped", w.desc, i, j, left, right)
				}
			}
		})
	}
}
