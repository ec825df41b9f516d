package detour

// verif:share vgrid

import (
	"bytes"
	"encoding/binary"
	"testing"
)

type tpos struct{ x, y, l int32 }

type tentry struct {
	ref  TileRef
	data []byte
	slot int
}

type tmodel struct {
	h     *vh
	nav   *NavMesh
	cap   int
	at    map[tpos]*tentry
	gone  []*tentry // removed tiles: their references must be dead
	ever  []tpos
	count uint32
}

// stamp gives a tile another place and an identity.
func stamp(data []byte, p tpos, id uint32) []byte {
	d := append([]byte(nil), data...)
	binary.LittleEndian.PutUint32(d[8:], uint32(p.x))
	binary.LittleEndian.PutUint32(d[12:], uint32(p.y))
	binary.LittleEndian.PutUint32(d[16:], uint32(p.l))
	binary.LittleEndian.PutUint32(d[20:], id)
	return d
}

// withoutLinks is the tile with no room for links.
func withoutLinks(data []byte) []byte {
	polys := int(binary.LittleEndian.Uint32(data[24:]))
	verts := int(binary.LittleEndian.Uint32(data[28:]))
	links := int(binary.LittleEndian.Uint32(data[32:]))
	o := 100 + 32*polys + 12*verts
	d := append([]byte(nil), data[:o]...)
	d = append(d, data[o+12*links:]...)
	binary.LittleEndian.PutUint32(d[32:], 0)
	return d
}

func (m *tmodel) live() []*tentry {
	var r []*tentry
	for _, p := range m.ever {
		if e := m.at[p]; e != nil {
			r = append(r, e)
		}
	}
	return r
}

// check compares every lookup with the model.
func (m *tmodel) check() {
	h := m.h
	places := map[[2]int32]int{}
	for _, p := range m.ever {
		e := m.at[p]
		t := m.nav.TileAt(p.x, p.y, p.l)
		r := m.nav.TileRefAt(p.x, p.y, p.l)
		if e == nil {
			h.ok(t == nil && r == 0, "lookup", "empty position %v: tile %v reference %#x", p, t != nil, r)
			continue
		}
		places[[2]int32{p.x, p.y}]++
		h.ok(t != nil, "lookup", "tile at %v not found", p)
		if t == nil {
			continue
		}
		h.ok(t.Header != nil && t.Header.X == p.x && t.Header.Y == p.y && t.Header.Layer == p.l, "lookup", "position %v gives another tile", p)
		h.ok(bytes.Equal(t.Data, e.data) && t.DataSize == int32(len(e.data)), "lookup", "position %v gives other data", p)
		h.ok(r == e.ref, "lookup", "reference at %v is %#x, want %#x", p, r, e.ref)
		h.ok(m.nav.TileByRef(e.ref) == t, "lookup", "reference %#x does not resolve to the tile at %v", e.ref, p)
		h.ok(m.nav.TileRef(t) == e.ref, "lookup", "tile at %v calls itself %#x, want %#x", p, m.nav.TileRef(t), e.ref)
	}
	for _, p := range m.ever {
		want := places[[2]int32{p.x, p.y}]
		for _, max := range []int32{64, 3, 1, 0} {
			buf := make([]*MeshTile, max+1)
			n := m.nav.TilesAt(p.x, p.y, buf, max)
			w := want
			if w > int(max) {
				w = int(max)
			}
			h.ok(int(n) == w, "layers", "position (%d,%d) lists %d layers, want %d of %d", p.x, p.y, n, w, want)
			seen := map[int32]bool{}
			for i := 0; i < int(n) && i < len(buf); i++ {
				t := buf[i]
				if t == nil || t.Header == nil {
					h.ok(false, "layers", "position (%d,%d): layer %d is empty", p.x, p.y, i)
					continue
				}
				h.ok(t.Header.X == p.x && t.Header.Y == p.y && !seen[t.Header.Layer] && m.at[tpos{p.x, p.y, t.Header.Layer}] != nil, "layers", "position (%d,%d) lists a wrong or repeated tile", p.x, p.y)
				seen[t.Header.Layer] = true
			}
			h.ok(buf[max] == nil, "layers", "position (%d,%d): listing wrote past its limit", p.x, p.y)
		}
	}
	for _, e := range m.gone {
		h.ok(m.nav.TileByRef(e.ref) == nil, "generation", "reference %#x of a removed tile still resolves", e.ref)
	}
}

// forget drops the dead references of a slot.
func (m *tmodel) forget(slot int) {
	var g []*tentry
	for _, e := range m.gone {
		if e.slot != slot {
			g = append(g, e)
		}
	}
	m.gone = g
}

func (m *tmodel) slotOf(r TileRef) int { return int(m.nav.decodePolyIDTile(PolyRef(r))) }

// add adds a tile and compares what happened with the model.
func (m *tmodel) add(data []byte, p tpos, last TileRef) {
	h := m.h
	m.count++
	d := stamp(data, p, m.count)
	seen := false
	for _, q := range m.ever {
		seen = seen || q == p
	}
	if !seen {
		m.ever = append(m.ever, p)
	}
	taken := map[int]bool{}
	for _, e := range m.live() {
		taken[e.slot] = true
	}
	want := m.at[p] == nil && len(taken) < m.cap
	if last != 0 {
		s := m.slotOf(last)
		want = m.at[p] == nil && s < m.cap && !taken[s]
	}
	st, r := m.nav.AddTile(d, last)
	if !want {
		h.ok(StatusFailed(st) && r == 0, "refused", "adding at %v (last reference %#x): status %#x reference %#x, want a failure", p, last, st, r)
		return
	}
	h.ok(StatusSucceed(st) && r != 0, "added", "adding at %v (last reference %#x): status %#x", p, last, st)
	if !StatusSucceed(st) {
		return
	}
	s := m.slotOf(r)
	h.ok(s < m.cap && !taken[s], "added", "adding at %v took slot %d, which is in use or does not exist", p, s)
	h.ok(last == 0 || r == last, "added", "adding at %v with last reference %#x gave %#x", p, last, r)
	if last != 0 {
		// restoring an old generation starts the slot's history over
		m.forget(s)
	}
	for _, e := range m.gone {
		h.ok(last != 0 || e.ref != r, "generation", "reference %#x of a removed tile was given out again", r)
	}
	m.at[p] = &tentry{ref: r, data: d, slot: s}
}

func (m *tmodel) remove(p tpos) {
	h := m.h
	e := m.at[p]
	salt := m.nav.decodePolyIDSalt(PolyRef(e.ref))
	data, st := m.nav.RemoveTile(e.ref)
	h.ok(StatusSucceed(st), "removed", "removing the tile at %v: status %#x", p, st)
	h.ok(bytes.Equal(data, e.data), "removed", "removing the tile at %v returned other data", p)
	delete(m.at, p)
	ns := m.nav.Tiles[e.slot].Salt
	h.ok(ns != 0 && ns != salt, "generation", "slot %d had generation %d, has %d after removal", e.slot, salt, ns)
	m.gone = append(m.gone, e)
	if len(m.gone) > 40 {
		m.gone = m.gone[1:]
	}
	if data, st := m.nav.RemoveTile(e.ref); !StatusFailed(st) || data != nil {
		h.ok(false, "removed", "removing the tile at %v twice: status %#x", p, st)
	}
}

func (m *tmodel) bad(r TileRef) {
	data, st := m.nav.RemoveTile(r)
	m.h.ok(StatusFailed(st) && data == nil, "removed", "removing reference %#x, which is not in use: status %#x", r, st)
}

func TestVerifC04(t *testing.T) {
	h := newVH(t, "random histories of additions, relocations and removals against a map")
	defer h.done()

	for n := h.n(2500); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		nc := h.intn(2)
		w := newVWorld(h, vopt{maxW: 3, conns: nc, nobv: nc > 0 || h.intn(3) == 0})
		var pool [][]byte
		w.build(h)
		for _, t := range w.tiles {
			if len(t.data) > 0 {
				pool = append(pool, t.data)
			}
		}
		capacity := 1 + h.intn(9)
		if h.intn(4) == 0 {
			capacity = 1 + h.intn(70)
		}
		span := int32(1 + h.intn(4))
		layers := int32(1 + h.intn(5))
		if h.intn(6) == 0 {
			layers = 50
		}
		steps := 10 + h.intn(3*capacity)
		h.do("history", sprint("seed", seed, "capacity", capacity, "span", span, "layers", layers, "steps", steps), func() {
			if len(pool) == 0 {
				return
			}
			if h.intn(3) == 0 {
				for i, d := range pool {
					if h.intn(2) == 0 {
						pool[i] = withoutLinks(d)
					}
				}
			}
			m := &tmodel{h: h, nav: &NavMesh{}, cap: capacity, at: map[tpos]*tentry{}}
			pr := NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: uint32(capacity), MaxPolys: 256}
			if st := m.nav.Init(&pr); !StatusSucceed(st) {
				h.ok(false, "added", "Init failed: %#x", st)
				return
			}
			for s := 0; s < steps; s++ {
				p := tpos{int32(h.intn(int(2*span+1))) - span, int32(h.intn(int(2*span+1))) - span, int32(h.intn(int(layers)))}
				if h.intn(12) == 0 {
					// far away: places that share a bucket
					p.x, p.y = p.x*int32(h.u32()>>3), p.y*int32(h.u32()>>3)
				}
				d := pool[h.intn(len(pool))]
				switch k := h.intn(10); {
				case k < 5:
					m.add(d, p, 0)
				case k < 6 && len(m.gone) > 0:
					m.add(d, p, m.gone[h.intn(len(m.gone))].ref)
				case k < 7:
					// a reference to any slot, in use or not, existing or not
					last := m.nav.encodePolyID(1+uint32(h.intn(7)), uint32(h.intn(capacity+1))&(1<<m.nav.tileBits-1), 0)
					m.add(d, p, TileRef(last))
				case k < 9:
					if l := m.live(); len(l) > 0 {
						e := l[h.intn(len(l))]
						for q, x := range m.at {
							if x == e {
								m.remove(q)
								break
							}
						}
					}
				default:
					m.bad(0)
					m.bad(TileRef(m.nav.encodePolyID(uint32(200+h.intn(40)), uint32(h.intn(capacity)), 0)))
					free := map[int]bool{}
					for i := 0; i < capacity; i++ {
						free[i] = true
					}
					for _, e := range m.live() {
						delete(free, e.slot)
					}
					for i := 0; i < capacity; i++ {
						if free[i] {
							m.bad(TileRef(m.nav.encodePolyID(m.nav.Tiles[i].Salt, uint32(i), 0)))
							break
						}
					}
					h.ok(m.nav.TileAt(p.x, p.y, p.l+1000) == nil, "lookup", "a tile at layer %d", p.l+1000)
					st, r := m.nav.AddTile(stamp(d, p, 0)[:h.intn(len(d))], 0)
					h.ok(StatusFailed(st) && r == 0, "refused", "adding part of a tile's data: status %#x", st)
				}
				if s%4 == 0 || s+1 == steps {
					m.check()
				}
			}
			// exactly the free slots can be filled
			left := capacity - len(m.live())
			for i := 0; i < left+2; i++ {
				m.add(pool[h.intn(len(pool))], tpos{int32(1000 + i), -int32(i % 3), int32(i % 2)}, 0)
			}
			h.ok(len(m.live()) == capacity, "added", "filled %d of %d slots", len(m.live()), capacity)
			m.check()
		})
	}

	// the generation of a slot goes round without ever being 0
	h.do("generation", "few salt bits", func() {
		m := &NavMesh{}
		pr := NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: 1 << 14, MaxPolys: 1 << 8}
		if st := m.Init(&pr); !StatusSucceed(st) {
			h.ok(StatusFailed(st), "generation", "Init: %#x", st)
			return
		}
		w := newVWorld(h, vopt{maxW: 1, single: true, full: true, flat: true})
		w.build(h)
		if len(w.tiles) == 0 || len(w.tiles[0].data) == 0 {
			return
		}
		d := stamp(w.tiles[0].data, tpos{}, 1)
		old := TileRef(0)
		for i := 0; i < 1200; i++ {
			st, r := m.AddTile(d, 0)
			h.ok(StatusSucceed(st) && r != old && m.decodePolyIDSalt(PolyRef(r)) != 0, "generation", "round %d: status %#x reference %#x after %#x", i, st, r, old)
			h.ok(old == 0 || m.TileByRef(old) == nil, "generation", "round %d: old reference %#x resolves", i, old)
			if _, st := m.RemoveTile(r); !StatusSucceed(st) {
				h.ok(false, "generation", "round %d: status %#x", i, st)
				return
			}
			old = r
		}
	})

	// the polygon part of a reference must hold every polygon of a tile
	for n := h.n(60); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w := newVWorld(h, vopt{maxW: 1 + h.intn(6), single: true, full: true, flat: true})
		h.do("polygons", sprint("seed", seed), func() {
			w.build(h)
			for _, t := range w.tiles {
				if len(t.data) == 0 {
					continue
				}
				polys := int(binary.LittleEndian.Uint32(t.data[24:]))
				for bits := uint32(0); bits < 6; bits++ {
					m := &NavMesh{}
					pr := NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: 4, MaxPolys: 1 << bits}
					h.ok(StatusSucceed(m.Init(&pr)), "polygons", "Init failed")
					st, r := m.AddTile(t.data, 0)
					h.ok(StatusSucceed(st) == (polys <= 1<<bits), "polygons", "status %#x for a tile of %d polygons in a mesh for %d", st, polys, 1<<bits)
					if StatusFailed(st) {
						h.ok(r == 0, "polygons", "reference %#x of a tile that was refused", r)
					}
				}
			}
		})
	}

	// known finding: the first polygon near a connection's end is taken to be
	// reference 0, so slot 0 must hold a polygon when a tile with an off-mesh
	// connection and a bounding volume tree is added elsewhere
	h.do("slot0", "off-mesh tile into slot 1 while slot 0 is empty", func() {
		w := newVWorld(h, vopt{maxW: 1, single: true, full: true, flat: true, conns: 1})
		for i := 0; i < 200 && (len(w.polys) == 0 || len(w.conns) == 0 || !w.starts(0)); i++ {
			w = newVWorld(h, vopt{maxW: 2, single: true, full: true, flat: true, conns: 1})
		}
		if len(w.tiles) == 0 {
			return
		}
		d, err := CreateNavMeshData(w.tiles[0].params)
		h.ok(err == nil, "slot0", "%v", err)
		m := &NavMesh{}
		pr := NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: 4, MaxPolys: 256}
		st := m.Init(&pr)
		h.ok(StatusSucceed(st), "slot0", "Init: %#x", st)
		if h.panics(func() { m.AddTile(d, TileRef(m.encodePolyID(1, 1, 0))) }) {
			h.known = append(h.known, "off-mesh tile added while slot 0 is empty")
		}
	})

	// a mesh for one tile
	h.do("single", "InitForSingleTile", func() {
		w := newVWorld(h, vopt{maxW: 2, single: true, full: true, flat: true})
		w.build(h)
		for _, flags := range []int{0, 1, 4} {
			d := append([]byte(nil), w.tiles[0].data...)
			m := &NavMesh{}
			st := m.InitForSingleTile(d, flags)
			h.ok(StatusSucceed(st), "single", "flags %d: %#x", flags, st)
			x, y := int32(binary.LittleEndian.Uint32(d[8:])), int32(binary.LittleEndian.Uint32(d[12:]))
			l := int32(binary.LittleEndian.Uint32(d[16:]))
			h.ok(m.TileAt(x, y, l) != nil, "single", "flags %d: no tile", flags)
			st, r := m.AddTile(stamp(d, tpos{x + 1, y, l}, 9), 0)
			h.ok(StatusFailed(st) && r == 0, "single", "flags %d: a second tile fits: %#x", flags, st)
		}
	})
}

// starts tells whether connection i starts inside the grid of the world.
func (w *vworld) starts(i int) bool {
	a := w.conns[i].a
	x, z := (a[0]-w.org[0])/(w.cs*float32(w.step)), (a[2]-w.org[2])/(w.cs*float32(w.step))
	return x > 0.3 && z > 0.3 && x < float32(w.gw)-0.3 && z < float32(w.gd)-0.3
}
