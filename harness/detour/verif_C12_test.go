package detour

// verif:share vgrid

import (
	"math"
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

const c12Mark PolyRef = 0xdeadbeef

func c12Buf(n int) []PolyRef {
	b := make([]PolyRef, n+3)
	for i := range b {
		b[i] = c12Mark
	}
	return b
}

// c12Rest checks that nothing was written from place n on.
func c12Rest(h *vh, b []PolyRef, n int, what string) {
	for i := n; i < len(b); i++ {
		h.ok(b[i] == c12Mark, "beyond the count", "entry %d written, count %d: %s", i, n, what)
	}
}

// c12Same compares the result of a call with a buffer of s entries with the
// whole path.
func c12Same(h *vh, name string, full []PolyRef, fst Status, b []PolyRef, s, n int, st Status, what string) {
	want, ws := len(full), fst
	if s < want {
		want, ws = s, fst|BufferTooSmall
	}
	h.ok(n == want && st == ws, name, "%d entries, status %#x, room for %d of %d, status %#x: %s", n, st, s, len(full), fst, what)
	for i := 0; i < n; i++ {
		h.ok(b[i] == full[i], name, "entry %d is %#x, want %#x (room for %d of %d): %s", i, b[i], full[i], s, len(full), what)
	}
	c12Rest(h, b, n, what)
}

func TestVerifC12(t *testing.T) {
	h := newVH(t, "path queries with buffers of every size against the whole path, the links and the recorded parents; arguments that are missing, stale or empty")
	defer h.done()

	for k := 0; k < h.n(8000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("buffers", sprint("seed", seed), func() {
			o := vopt{maxW: 1 + h.intn(9), noMerge: h.intn(2) == 0, noTris: h.intn(2) == 0, full: h.intn(2) == 0}
			w := newVWorld(h, o)
			w.build(h)
			mn := int32(4096)
			if h.intn(3) == 0 {
				mn = int32(2 + h.intn(30))
			}
			st, q := NewNavMeshQuery(w.nav, mn)
			h.ok(StatusSucceed(st), "query", "%v", st)
			f := NewStandardQueryFilter()
			if h.intn(3) == 0 {
				f.SetExcludeFlags(uint16(1 << uint(h.intn(5))))
			}
			for a := uint8(0); a < 6; a++ {
				f.SetAreaCost(int32(a), 1+float32(h.intn(4)))
			}
			pass := func(r PolyRef) bool {
				p := w.polys[w.find(r)]
				return p.flags&f.IncludeFlags() != 0 && p.flags&f.ExcludeFlags() == 0
			}
			for r := 0; r < 4; r++ {
				i, j := h.intn(len(w.polys)), h.intn(len(w.polys))
				ia, ja := w.inside(h, i), w.inside(h, j)
				a, b := d3.Vec3(ia[:]), d3.Vec3(ja[:])
				si, ei := w.polys[i].ref, w.polys[j].ref
				what := sprint(w.desc, "from", i, "to", j, "nodes", mn)
				buf := c12Buf(len(w.polys) + 1)
				n, st := q.FindPath(si, ei, a, b, f, buf[:len(w.polys)+1])
				h.ok(StatusSucceed(st) && st&BufferTooSmall == 0 && n >= 1 && n <= len(w.polys), "path", "%d entries, status %#x: %s", n, st, what)
				c12Rest(h, buf, n, what)
				full, fst := buf[:n], st
				h.ok(full[0] == si, "start", "path begins with %#x: %s", full[0], what)
				h.ok((full[n-1] != ei) == (st&PartialResult != 0), "partial", "path ends with %#x, status %#x: %s", full[n-1], st, what)
				for x := 1; x < n; x++ {
					u, v := w.find(full[x-1]), w.find(full[x])
					h.ok(u >= 0 && v >= 0 && w.polys[u].adj[v] && pass(full[x]), "order", "entries %d and %d (polygons %d, %d): %s", x-1, x, u, v, what)
				}
				// the recorded parents
				if si != ei {
					nodes := make([]*Node, 8)
					m := q.NodePool().FindNodes(full[n-1], nodes, 8)
					found := false
					for _, nd := range nodes[:m] {
						x := n - 1
						for nd != nil && x >= 0 && nd.ID == full[x] {
							x--
							nd = q.NodePool().NodeAtIdx(int32(nd.PIdx))
						}
						found = found || (nd == nil && x == -1)
					}
					h.ok(found, "parents", "%d nodes of the last polygon, none leads back along the path %v: %s", m, full, what)
				}
				// every buffer size
				for s := 1; s <= n+2; s++ {
					if s > 6 && s < n-2 && h.intn(3) > 0 {
						continue
					}
					b2 := c12Buf(s)
					n2, st2 := q.FindPath(si, ei, a, b, f, b2[:s])
					c12Same(h, "find path", full, fst, b2, s, n2, st2, what)
				}
				// sliced
				opt := uint32(0)
				if h.intn(2) == 0 {
					opt = FindPathAnyAngle
				}
				sliced := func(s, max int) ([]PolyRef, int, Status) {
					st := q.InitSlicedFindPath(si, ei, a, b, f, opt)
					h.ok(!StatusFailed(st), "sliced", "InitSlicedFindPath: %#x: %s", st, what)
					for it := 0; StatusInProgress(st) && it < 10000; it++ {
						st = q.UpdateSlicedFindPath(1+h.intn(20), nil)
					}
					h.ok(StatusSucceed(st), "sliced", "UpdateSlicedFindPath: %#x: %s", st, what)
					bs := c12Buf(s)
					n, st := q.FinalizeSlicedFindPath(bs[:s], max)
					h.ok(n <= s && n <= max, "sliced", "%d entries with room for %d, %d: %s", n, s, max, what)
					// (a shortcut's last entry may be taken back)
					if opt != 0 {
						c12Rest(h, bs, s, what)
					} else {
						c12Rest(h, bs, n, what)
					}
					return bs, n, st
				}
				fl := 2*len(w.polys) + 2
				fb, fn, ft := sliced(fl, fl)
				h.ok(StatusSucceed(ft) && ft&BufferTooSmall == 0 && fn >= 1 && fb[0] == si, "sliced", "%d entries %v, status %#x: %s", fn, fb[:fn], ft, what)
				for x := 1; x < fn; x++ {
					u, v := w.find(fb[x-1]), w.find(fb[x])
					h.ok(u >= 0 && v >= 0 && (w.polys[u].adj[v] || opt != 0 && touch(w, u, v)), "sliced order", "entries %d and %d (polygons %d, %d), options %d: %s", x-1, x, u, v, opt, what)
				}
				for s := 1; s <= fn+2; s++ {
					max := s
					if h.intn(4) == 0 {
						max = s + h.intn(3)
					}
					bs, sn, sst := sliced(s, max)
					if opt == 0 {
						c12Same(h, "sliced", fb[:fn], ft, bs, s, sn, sst, what)
						continue
					}
					// a shortcut's last polygon may be the next corner's
					h.ok(sn >= 1 && sn <= fn && sn >= min2(s, fn)-1, "sliced any angle", "%d entries with room for %d of %d: %s", sn, s, fn, what)
					for x := 0; x < sn; x++ {
						h.ok(bs[x] == fb[x], "sliced any angle", "entry %d of %v, whole path %v: %s", x, bs[:sn], fb[:fn], what)
					}
					h.ok(sst&BufferTooSmall != 0 == (s < fn), "sliced any angle", "%d entries with room for %d of %d, status %#x: %s", sn, s, fn, sst, what)
				}
				// ray
				var hit RaycastHit
				rb := c12Buf(len(w.polys) + 1)
				hit.Path, hit.MaxPath = rb, len(w.polys)+1
				rs := q.Raycast(si, a, b, f, 0, &hit, 0)
				h.ok(rs == Success && hit.PathCount >= 1 && rb[0] == si, "ray", "%#x, %d polygons: %s", rs, hit.PathCount, what)
				c12Rest(h, rb, hit.PathCount, what)
				rt, rn := hit.T, hit.PathCount
				for x := 1; x < rn; x++ {
					u, v := w.find(rb[x-1]), w.find(rb[x])
					h.ok(u >= 0 && v >= 0 && w.polys[u].adj[v] && pass(rb[x]), "ray order", "entries %d and %d: %s", x-1, x, what)
				}
				for s := 0; s <= rn+1; s++ {
					b2 := c12Buf(s)
					n2, t2, st2 := q.Raycast2(si, a, b, f, nil, b2[:s], s)
					h.ok(t2 == rt || t2 != t2 && rt != rt, "ray buffer", "T %v, want %v, room for %d: %s", t2, rt, s, what)
					c12Same(h, "ray buffer", rb[:rn], rs, b2, s, n2, st2, what)
					// a result record that was used before
					hit.Path, hit.MaxPath = b2, s
					for x := range b2 {
						b2[x] = c12Mark
					}
					st2 = q.Raycast(si, a, b, f, RaycastUseCosts*h.intn(2), &hit, 0)
					c12Same(h, "ray again", rb[:rn], rs, b2, s, hit.PathCount, st2, what)
					h.ok(hit.T == rt, "ray again", "T %v, want %v: %s", hit.T, rt, what)
				}
				// partial results of a sliced search
				ex := append([]PolyRef{}, full...)
				iters := 1 + h.intn(6)
				if h.intn(3) == 0 {
					iters = 1 << 20
				}
				part := func(s, max int) ([]PolyRef, int, Status) {
					st := q.InitSlicedFindPath(si, ei, a, b, f, opt)
					if StatusInProgress(st) {
						q.UpdateSlicedFindPath(iters, nil)
					}
					bs := c12Buf(s)
					pn, pst := q.FinalizeSlicedFindPathPartial(ex, len(ex), bs[:s], max)
					h.ok(pn >= 1 && pn <= s && StatusSucceed(pst) && bs[0] == si, "sliced partial", "%d entries with room for %d, status %#x: %s", pn, s, pst, what)
					return bs, pn, pst
				}
				gb, gn, gt := part(fl, fl)
				h.ok(gt&BufferTooSmall == 0, "sliced partial", "%d entries with room for %d, status %#x: %s", gn, fl, gt, what)
				for s := 1; s <= gn+2; s++ {
					bs, pn, pst := part(s, s+h.intn(2))
					if opt == 0 {
						c12Same(h, "sliced partial", gb[:gn], gt, bs, s, pn, pst, what)
						continue
					}
					c12Rest(h, bs, s, what)
					h.ok(pst&BufferTooSmall != 0 == (s < gn), "sliced partial", "%d entries with room for %d of %d, status %#x: %s", pn, s, gn, pst, what)
				}
			}
		})
	}

	// arguments
	for k := 0; k < h.n(8000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("arguments", sprint("seed", seed), func() {
			w := newVWorld(h, vopt{maxW: 3})
			w.build(h)
			st, q := NewNavMeshQuery(w.nav, 64)
			h.ok(StatusSucceed(st), "query", "%v", st)
			f := NewStandardQueryFilter()
			good := func() PolyRef { return w.polys[h.intn(len(w.polys))].ref }
			bad := func() PolyRef {
				for {
					r := good()
					switch h.intn(5) {
					case 0:
						r = 0
					case 1:
						r = PolyRef(h.u32())
					case 2:
						r ^= 1 << uint(31-h.intn(4)) // another salt
					case 3:
						r += PolyRef(len(w.polys) + h.intn(3)) // beyond the tile's polygons
					case 4:
						r = w.nav.encodePolyID(1, uint32(len(w.tiles)), 0) // an empty slot
					}
					if w.find(r) < 0 {
						return r
					}
				}
			}
			pa := w.center(h.intn(len(w.polys)))
			pos := func() d3.Vec3 { return append(d3.Vec3{}, pa[:]...) }
			short := func() d3.Vec3 {
				if h.intn(2) == 0 {
					return nil
				}
				return pos()[:h.intn(3)]
			}
			s, e := good(), good()
			p0, p1 := pos(), pos()
			var flt QueryFilter = f
			n := 1 + h.intn(5)
			full := c12Buf(n)
			buf := full[:n]
			what := ""
			switch h.intn(7) {
			case 0:
				s, what = bad(), "start reference"
			case 1:
				e, what = bad(), "end reference"
			case 2:
				flt, what = nil, "no filter"
			case 3:
				p0, what = short(), "start point"
			case 4:
				p1, what = short(), "end point"
			case 5:
				buf, what = nil, "no buffer"
			case 6:
				buf, what = full[:0], "empty buffer"
			}
			if h.intn(3) == 0 && what != "start reference" && what != "end reference" {
				e = s
			}
			pn, pst := q.FindPath(s, e, p0, p1, flt, buf)
			h.ok(pn == 0 && pst == Failure|InvalidParam, "find path", "%s: %d entries, status %#x", what, pn, pst)
			c12Rest(h, full, 0, what)
			if buf != nil && len(buf) > 0 {
				ist := q.InitSlicedFindPath(s, e, p0, p1, flt, uint32(h.intn(3)))
				h.ok(ist == Failure|InvalidParam, "sliced", "%s: status %#x", what, ist)
				ust := q.UpdateSlicedFindPath(5, nil)
				h.ok(StatusFailed(ust), "sliced", "%s: update status %#x", what, ust)
				var sn int
				var sst Status
				if h.intn(2) == 0 {
					sn, sst = q.FinalizeSlicedFindPath(buf, len(buf))
				} else {
					sn, sst = q.FinalizeSlicedFindPathPartial([]PolyRef{good()}, 1, buf, len(buf))
				}
				h.ok(sn == 0 && StatusFailed(sst), "sliced", "%s: finalize %d, status %#x", what, sn, sst)
				c12Rest(h, full, 0, what)
				// rays
				hit := &RaycastHit{Path: buf, MaxPath: len(buf), T: 3, PathCount: 2}
				prev := PolyRef(0)
				if what == "end reference" {
					prev = e
				}
				if what != "end reference" || prev != 0 {
					rst := q.Raycast(s, p0, p1, flt, 0, hit, prev)
					h.ok(rst == Failure|InvalidParam && hit.PathCount == 0, "ray", "%s: status %#x, %d polygons", what, rst, hit.PathCount)
					c12Rest(h, full, 0, what)
				}
				h.ok(q.Raycast(s, p0, p1, flt, 0, nil, 0) == Failure|InvalidParam, "ray", "no result record")
			} else {
				ist := q.InitSlicedFindPath(s, e, p0, p1, flt, 0)
				h.ok(!StatusFailed(ist), "sliced", "status %#x", ist)
				for it := 0; StatusInProgress(ist) && it < 1000; it++ {
					ist = q.UpdateSlicedFindPath(5, nil)
				}
				sn, sst := q.FinalizeSlicedFindPath(buf, 0)
				h.ok(sn == 0 && sst == Failure|InvalidParam, "sliced", "%s: finalize %d, status %#x", what, sn, sst)
				sn, sst = q.FinalizeSlicedFindPath(buf, 5)
				h.ok(sn == 0 && StatusFailed(sst), "sliced", "%s: finalize %d, status %#x", what, sn, sst)
			}
			// straight paths
			sp := []d3.Vec3{d3.NewVec3(), d3.NewVec3()}
			if flt != nil {
				path := []PolyRef{s, e}
				if buf == nil || len(buf) == 0 {
					if h.intn(2) == 0 {
						path = nil
					} else {
						sp = nil
					}
				}
				cn, cst := q.FindStraightPath(p0, p1, path, sp, make([]uint8, 2), make([]PolyRef, 2), 0)
				h.ok(cn == 0 && cst == Failure|InvalidParam, "straight path", "%s: %d points, status %#x", what, cn, cst)
			}
			// nearest polygon and boxes
			ext := d3.Vec3{1, 1, 1}
			if nst, nr, _ := q.FindNearestPoly(short(), ext, f); true {
				h.ok(nst == Failure|InvalidParam && nr == 0, "nearest", "short centre: %#x %#x", nst, nr)
			}
			if nst, nr, _ := q.FindNearestPoly(pos(), short(), f); true {
				h.ok(nst == Failure|InvalidParam && nr == 0, "nearest", "short extents: %#x %#x", nst, nr)
			}
			if nst, nr, _ := q.FindNearestPoly(pos(), ext, nil); true {
				h.ok(nst == Failure|InvalidParam && nr == 0, "nearest", "no filter: %#x %#x", nst, nr)
			}
			if qn, qst := q.queryPolygons6(pos(), ext, f, nil, 4); true {
				h.ok(qst == Failure|InvalidParam && qn == 0, "box query", "no buffer: %#x %d", qst, qn)
			}
			var over bool
			c := d3.NewVec3()
			h.ok(q.ClosestPointOnPoly(bad(), pos(), c, &over) == Failure|InvalidParam && q.ClosestPointOnPolyBoundary(bad(), pos(), c) == Failure|InvalidParam, "closest point", "bad reference accepted")
			// a good call still works
			gb := make([]PolyRef, 40)
			gn, gst := q.FindPath(good(), good(), pos(), pos(), f, gb)
			h.ok(gn >= 1 && StatusSucceed(gst), "afterwards", "%d entries, status %#x", gn, gst)
		})
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// touch tells whether two polygons meet in at least a point (shortcuts may
// pass through a corner).
func touch(w *vworld, i, j int) bool {
	for _, a := range w.polys[i].verts {
		pa := w.pos(a)
		for k := range w.polys[j].verts {
			b, c := w.pos(w.polys[j].verts[k]), w.pos(w.polys[j].verts[(k+1)%len(w.polys[j].verts)])
			d := math.Hypot(float64(c[0]-b[0]), float64(c[2]-b[2]))
			if math.Abs(math.Hypot(float64(pa[0]-b[0]), float64(pa[2]-b[2]))+math.Hypot(float64(pa[0]-c[0]), float64(pa[2]-c[2]))-d) < 1e-3 {
				return true
			}
		}
	}
	return i == j
}
