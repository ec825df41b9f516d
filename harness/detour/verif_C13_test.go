package detour

// verif:share vgrid

import (
	"math"
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

type p2 struct{ x, z float64 }

func xz(v [3]float32) p2  { return p2{float64(v[0]), float64(v[2])} }
func xzv(v d3.Vec3) p2    { return p2{float64(v[0]), float64(v[2])} }
func dist2(a, b p2) float64 { return math.Hypot(a.x-b.x, a.z-b.z) }
func cross2(a, b, c p2) float64 {
	return (b.x-a.x)*(c.z-a.z) - (c.x-a.x)*(b.z-a.z)
}

// ptSeg is the distance of p from the segment a-b.
func ptSeg(p, a, b p2) float64 {
	dx, dz := b.x-a.x, b.z-a.z
	l := dx*dx + dz*dz
	t := 0.0
	if l > 0 {
		t = ((p.x-a.x)*dx + (p.z-a.z)*dz) / l
	}
	t = math.Max(0, math.Min(1, t))
	return dist2(p, p2{a.x + t*dx, a.z + t*dz})
}

// segSeg is the distance between two segments.
func segSeg(a, b, c, d p2) float64 {
	if cross2(a, b, c)*cross2(a, b, d) < 0 && cross2(c, d, a)*cross2(c, d, b) < 0 {
		return 0
	}
	return math.Min(math.Min(ptSeg(a, c, d), ptSeg(b, c, d)), math.Min(ptSeg(c, a, b), ptSeg(d, a, b)))
}

// along gives the range of parameters of a-b at which it meets c-d.
func along(a, b, c, d p2) (lo, hi float64, ok bool) {
	if segSeg(a, b, c, d) > 1e-4 {
		return 0, 0, false
	}
	l := dist2(a, b)
	if l < 1e-9 {
		return 0, 1, true
	}
	par := func(p p2) float64 {
		return math.Max(0, math.Min(1, ((p.x-a.x)*(b.x-a.x)+(p.z-a.z)*(b.z-a.z))/(l*l)))
	}
	c1, c2 := cross2(a, b, c), cross2(a, b, d)
	if math.Abs(c1) < 1e-4*l && math.Abs(c2) < 1e-4*l {
		return math.Min(par(c), par(d)), math.Max(par(c), par(d)), true
	}
	s := 0.0
	if c1 != c2 {
		s = math.Max(0, math.Min(1, c1/(c1-c2)))
	}
	t := par(p2{c.x + s*(d.x-c.x), c.z + s*(d.z-c.z)})
	return t, t, true
}

// collinear tells whether three distinct corners of the corridor are (nearly) on a line.
func collinear(s, e p2, portals [][2]p2) bool {
	ps := []p2{s, e}
	for _, po := range portals {
		for _, x := range po {
			seen := false
			for _, y := range ps {
				seen = seen || x == y
			}
			if !seen {
				ps = append(ps, x)
			}
		}
	}
	for i := range ps {
		for j := 0; j < i; j++ {
			for k := 0; k < j; k++ {
				if math.Abs(cross2(ps[i], ps[j], ps[k])) < 1e-3*(1+dist2(ps[i], ps[j])*dist2(ps[i], ps[k])) {
					return true
				}
			}
		}
	}
	return false
}

// shortest is the length of the shortest path from s to e through the portals in order.
func shortest(s, e p2, portals [][2]p2) float64 {
	type node struct {
		at int // portal index, -1 start, len end
		p  p2
		d  float64
	}
	ns := []node{{-1, s, 0}}
	for i, po := range portals {
		ns = append(ns, node{i, po[0], math.Inf(1)}, node{i, po[1], math.Inf(1)})
	}
	ns = append(ns, node{len(portals), e, math.Inf(1)})
	for j := 1; j < len(ns); j++ {
		for i := 0; i < j; i++ {
			if math.IsInf(ns[i].d, 1) || (ns[i].at == ns[j].at) {
				continue
			}
			ok := true
			cur := 0.0
			for k := ns[i].at + 1; k < ns[j].at && ok; k++ {
				lo, hi, hit := along(ns[i].p, ns[j].p, portals[k][0], portals[k][1])
				ok = hit && hi >= cur-1e-4
				cur = math.Max(cur, lo)
			}
			if ok {
				ns[j].d = math.Min(ns[j].d, ns[i].d+dist2(ns[i].p, ns[j].p))
			}
		}
	}
	return ns[len(ns)-1].d
}

// corridor is a random walk without repetitions.
func (w *vworld) corridor(h *vh, max int) []int {
	c := []int{h.intn(len(w.polys))}
	seen := map[int]bool{c[0]: true}
	for len(c) < max {
		var next []int
		for j := range w.polys {
			if w.polys[c[len(c)-1]].adj[j] && !seen[j] {
				next = append(next, j)
			}
		}
		if len(next) == 0 {
			break
		}
		n := next[h.intn(len(next))]
		seen[n] = true
		c = append(c, n)
	}
	return c
}

func vecs(n int) []d3.Vec3 {
	out := make([]d3.Vec3, n)
	for i := range out {
		out[i] = d3.Vec3{-99, -98, -97}
	}
	return out
}

func TestVerifC13(t *testing.T) {
	h := newVH(t, "straight paths along random corridors of generated meshes: shortest length by an independent search, prefixes for small buffers, crossings, truncated corridors; single appends")
	defer h.done()
	for k := 0; k < h.n(4000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("append", sprint("seed", seed), func() {
			n := 1 + h.intn(6)
			cnt := h.intn(n)
			sp := vecs(n)
			for i := 0; i < cnt; i++ {
				sp[i] = d3.Vec3{float32(h.intn(3)), float32(h.intn(3)), float32(h.intn(3))}
			}
			fl, rf := make([]uint8, n), make([]PolyRef, n)
			for i := range fl {
				fl[i], rf[i] = uint8(100+i), PolyRef(1000+i)
			}
			pos := d3.Vec3{float32(h.intn(3)), float32(h.intn(3)), float32(h.intn(3))}
			if cnt > 0 && h.intn(2) == 0 {
				pos = d3.NewVec3From(sp[cnt-1])
			}
			flag := uint8(h.intn(5))
			dup := cnt > 0 && pos[0] == sp[cnt-1][0] && pos[1] == sp[cnt-1][1] && pos[2] == sp[cnt-1][2]
			before := make([]d3.Vec3, n)
			for i := range sp {
				before[i] = d3.NewVec3From(sp[i])
			}
			afl, arf := fl, rf
			switch h.intn(4) {
			case 0:
				afl = nil
			case 1:
				arf = nil
			}
			c := cnt
			st := (&NavMeshQuery{}).appendVertex(pos, flag, 77, sp, afl, arf, &c)
			at := cnt
			want := Status(InProgress)
			if dup {
				at = cnt - 1
				h.ok(c == cnt, "append count", "count %d", c)
			} else {
				h.ok(c == cnt+1, "append count", "count %d after adding to %d", c, cnt)
				if c >= n {
					want = Success | BufferTooSmall
				} else if flag == StraightPathEnd {
					want = Success
				}
			}
			h.ok(st == want, "append status", "got %v, want %v (count %d of %d, flag %d)", st, want, c, n, flag)
			for i := range sp {
				wf, wr, wp := uint8(100+i), PolyRef(1000+i), before[i]
				if i == at {
					wf, wr, wp = flag, 77, pos
				}
				if afl != nil {
					h.ok(fl[i] == wf, "append flags", "entry %d has flag %d", i, fl[i])
				}
				if arf != nil {
					h.ok(rf[i] == wr, "append refs", "entry %d has ref %d", i, rf[i])
				}
				h.ok(sp[i][0] == wp[0] && sp[i][1] == wp[1] && sp[i][2] == wp[2], "append points", "entry %d is %v", i, sp[i])
			}
		})
	}
	for k := 0; k < h.n(1200); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("corridors", sprint("seed", seed), func() {
						// The funnel's result on collinear corners is not the shortest one,
			// and portals cut down to a part of an edge are stored coarsely:
			// lengths are compared on displaced corners in one tile.
			exact := h.intn(2) == 0
			o := vopt{jitter: exact}
			w := newVWorld(h, o)
			w.build(h)
			_, q := NewNavMeshQuery(w.nav, 512)
			for r := 0; r < 8; r++ {
				c := w.corridor(h, 1+h.intn(14))
				path := make([]PolyRef, len(c))
				var portals [][2]p2
				for i, x := range c {
					path[i] = w.polys[x].ref
					if i > 0 {
						lo, hi, _ := w.shared(c[i-1], x)
						portals = append(portals, [2]p2{xz(lo), xz(hi)})
					}
				}
				a, b := w.inside(h, c[0]), w.inside(h, c[len(c)-1])
				sa, sb := d3.Vec3{a[0], a[1], a[2]}, d3.Vec3{b[0], b[1], b[2]}
				opt := int32(0)
				switch h.intn(3) {
				case 1:
					opt = int32(StraightPathAreaCrossings)
				case 2:
					opt = int32(StraightPathAllCrossings)
				}
				big := 4*len(c) + 8
				sp, fl, rf := vecs(big), make([]uint8, big), make([]PolyRef, big)
				n, st := q.FindStraightPath(sa, sb, path, sp, fl, rf, opt)
				what := sprint(w.desc, "corridor", c, "from", a, "to", b, "options", opt, "points", sp[:vmin(n, big)])
				h.ok(st == Success && n >= 1 && n < big, "status", "%v %d: %s", st, n, what)
				h.ok(dist2(xzv(sp[0]), xz(a)) < 1e-3, "first point", "%s", what)
				if n > 1 {
					h.ok(fl[0]&StraightPathStart != 0, "first flag", "flags %v: %s", fl[:n], what)
				}
				h.ok(fl[n-1] == StraightPathEnd && rf[n-1] == 0, "last flag", "flags %v refs %v: %s", fl[:n], rf[:n], what)
				h.ok(dist2(xzv(sp[n-1]), xz(b)) < 1e-3, "last point", "%s", what)
				for i := 1; i < n-1; i++ {
					h.ok(fl[i] == 0, "inner flags", "flags %v: %s", fl[:n], what)
					in := false
					for _, r := range path {
						in = in || r == rf[i]
					}
					h.ok(in, "inner refs", "refs %v: %s", rf[:n], what)
				}
				for i := n; i < big; i++ {
					h.ok(fl[i] == 0 && rf[i] == 0 && sp[i][0] == -99, "beyond the count", "entry %d filled, count %d: %s", i, n, what)
				}
				var l float64
				for i := 1; i < n; i++ {
					l += dist2(xzv(sp[i-1]), xzv(sp[i]))
				}
				want := shortest(xz(a), xz(b), portals)
				// tile portals are stored with 1/255 of the edge
				tol := 0.02
				if !exact {
					tol += 0.02 * float64(len(c)) * float64(w.step) * float64(w.cs)
				}
				h.ok(l > want-tol && (!exact || collinear(xz(a), xz(b), portals) || l < want+1e-2), "length", "length %v, shortest %v: portals %v %s", l, want, portals, what)
				// every portal is crossed in order
				at := 0
				for i, po := range portals {
					best := math.Inf(1)
					for ; at+1 < n; at++ {
						if d := segSeg(xzv(sp[at]), xzv(sp[at+1]), po[0], po[1]); d < tol {
							best = d
							break
						}
					}
					h.ok(n == 1 || best < tol, "portals in order", "portal %d is not crossed: %s", i, what)
				}
				if opt != 0 && n > 1 {
					for i, po := range portals {
						if opt == int32(StraightPathAreaCrossings) && w.polys[c[i]].area == w.polys[c[i+1]].area {
							continue
						}
						near := math.Inf(1)
						for x := 0; x < n; x++ {
							near = math.Min(near, ptSeg(xzv(sp[x]), po[0], po[1]))
						}
						h.ok(near < tol, "crossings", "no point on portal %d: %s", i, what)
					}
				}
				// a smaller buffer holds a prefix
				sm := 1 + h.intn(n+1)
				sp2, fl2, rf2 := vecs(sm), make([]uint8, sm), make([]PolyRef, sm)
				n2, st2 := q.FindStraightPath(sa, sb, path, sp2, fl2, rf2, opt)
				if sm > n {
					h.ok(n2 == n && st2 == Success, "exact buffer", "%v %d with %d slots: %s", st2, n2, sm, what)
				} else {
					h.ok(n2 == sm && st2 == Success|BufferTooSmall, "small buffer", "%v %d with %d slots: %s", st2, n2, sm, what)
				}
				for i := 0; i < n2-1; i++ {
					h.ok(fl2[i] == fl[i] && rf2[i] == rf[i] && sp2[i][0] == sp[i][0] && sp2[i][1] == sp[i][1] && sp2[i][2] == sp[i][2], "small buffer entries", "entry %d: %v %v %v: %s", i, sp2[i], fl2[i], rf2[i], what)
				}
				h.ok(n2 == 0 || (sp2[n2-1][0] == sp[n2-1][0] && sp2[n2-1][2] == sp[n2-1][2]), "small buffer entries", "last %v: %s", sp2[n2-1], what)
				// optional outputs
				sp3 := vecs(big)
				n3, st3 := q.FindStraightPath(sa, sb, path, sp3, nil, nil, opt)
				h.ok(n3 == n && st3 == Success, "optional outputs", "%d %v: %s", n3, st3, what)
				// a gap in the corridor
				if len(c) > 2 {
					g := 1 + h.intn(len(c)-2)
					bad := append([]PolyRef{}, path...)
					bad[g] = PolyRef(uint32(bad[g]) ^ 1<<31)
					for _, size := range []int{big, sm} {
						sp4, fl4, rf4 := vecs(size), make([]uint8, size), make([]PolyRef, size)
						n4, st4 := q.FindStraightPath(sa, sb, bad, sp4, fl4, rf4, 0)
						full := n4 == size
						if full && st4 == Success|BufferTooSmall {
							continue
						}
						ws := Status(Success | PartialResult)
						if full {
							ws |= BufferTooSmall
						}
						h.ok(st4 == ws && n4 >= 1 && n4 <= size, "broken corridor", "gap at %d: %v %d of %d: %s", g, st4, n4, size, what)
						cl := d3.NewVec3()
						q.ClosestPointOnPolyBoundary(path[g-1], sb, cl)
						h.ok(full || dist2(xzv(cl), xzv(sp4[n4-1])) < 1e-3, "broken corridor", "gap at %d: ends at %v, not %v: %s", g, sp4[n4-1], cl, what)
						h.ok(full || rf4[n4-1] == path[g-1], "broken corridor", "gap at %d: last ref %v: %s", g, rf4[n4-1], what)
					}
				}
				dead := append([]PolyRef{}, path...)
				dead[0] = 0
				n5, st5 := q.FindStraightPath(sa, sb, dead, sp3, fl, rf, opt)
				h.ok(n5 == 0 && st5 == Failure|InvalidParam, "dead start", "%d %v", n5, st5)
				dead[0] = path[0]
				dead[len(dead)-1] = PolyRef(uint32(path[len(dead)-1]) ^ 1<<31)
				n5, st5 = q.FindStraightPath(sa, sb, dead, sp3, fl, rf, opt)
				h.ok(n5 == 0 && st5 == Failure|InvalidParam, "dead end", "%d %v", n5, st5)
				n5, st5 = q.FindStraightPath(sa, sb, nil, sp3, fl, rf, opt)
				h.ok(n5 == 0 && st5 == Failure|InvalidParam, "no corridor", "%d %v", n5, st5)
				n5, st5 = q.FindStraightPath(sa, sb, path, nil, nil, nil, opt)
				h.ok(n5 == 0 && st5 == Failure|InvalidParam, "no buffer", "%d %v", n5, st5)
			}
		})
	}
}
