package detour

import "testing"

func TestVerifC03(t *testing.T) {
	h := newVH(t, "tile counts 0 to 70000 (and refused ones up to 4294967295) with polygon counts over the whole 32-bit range, concentrated around powers of two; fresh meshes and meshes used before")
	defer h.done()

	bits := func(n uint32) uint {
		b := uint(0)
		for b < 32 && uint64(1)<<b < uint64(n) {
			b++
		}
		return b
	}
	around := func(max uint) uint32 {
		v := int64(1)<<uint(h.intn(int(max)+1)) + int64(h.intn(5)) - 2
		if v < 0 {
			v = 0
		}
		if v > 0xffffffff {
			v = 0xffffffff
		}
		return uint32(v)
	}
	pick := func(max uint) uint32 {
		if h.intn(3) == 0 {
			return uint32(h.intn(1 << (max - 1)))
		}
		return around(max)
	}
	check := func(m *NavMesh, p NavMeshParams) {
		var st Status
		if h.panics(func() { st = m.Init(&p) }) {
			h.failf("no panic", "Init panicked")
			return
		}
		tb, pb := bits(p.MaxTiles), bits(p.MaxPolys)
		if tb+pb > 24 {
			h.ok(st == Failure|InvalidParam, "refused", "status 0x%x with %d tile bits and %d polygon bits", uint32(st), tb, pb)
			return
		}
		h.ok(st == Success, "accepted", "status 0x%x with %d tile bits and %d polygon bits", uint32(st), tb, pb)
		h.ok(len(m.Tiles) == int(p.MaxTiles) && m.MaxTiles == int32(p.MaxTiles), "slots", "%d", len(m.Tiles))
		h.ok(uint64(1)<<m.tileBits >= uint64(p.MaxTiles) && uint64(1)<<m.polyBits >= uint64(p.MaxPolys), "bits suffice", "%d %d", m.tileBits, m.polyBits)
		h.ok(m.saltBits >= 8 && m.saltBits+m.tileBits+m.polyBits <= 32, "salt bits", "%d", m.saltBits)
		free := map[*MeshTile]bool{}
		for f := m.nextFree; f != nil; f = f.Next {
			if free[f] {
				h.failf("available once", "a slot is listed twice")
				return
			}
			free[f] = true
		}
		h.ok(len(free) == len(m.Tiles), "available once", "%d of %d slots available", len(free), len(m.Tiles))
		for i := range m.Tiles {
			tl := &m.Tiles[i]
			h.ok(free[tl] && tl.Salt == 1 && tl.Header == nil && tl.Data == nil && len(tl.Polys) == 0 && len(tl.Links) == 0, "empty slot", "slot %d", i)
		}
		// the highest slot and polygon survive a reference
		if p.MaxTiles > 0 && p.MaxPolys > 0 {
			it, ip := p.MaxTiles-1, p.MaxPolys-1
			var s, a, b uint32
			m.DecodePolyID(m.encodePolyID(1, it, ip), &s, &a, &b)
			h.ok(s == 1 && a == it && b == ip, "numbering", "slot %d polygon %d read back as %d %d salt %d", it, ip, a, b, s)
		}
		for q := 0; q < 40; q++ {
			x, y := int32(h.intn(9)-4), int32(h.intn(9)-4)
			if q%4 == 0 {
				x, y = int32(h.u32()), int32(h.u32())
			}
			h.ok(m.TileAt(x, y, int32(h.intn(3))) == nil, "empty index", "a tile at %d %d", x, y)
		}
		for i := range m.posLookup {
			h.ok(m.posLookup[i] == nil, "empty index", "entry %d", i)
		}
	}
	for n := h.n(1500); n > 0; n-- {
		p := NavMeshParams{MaxTiles: pick(10), MaxPolys: pick(32), TileWidth: h.rng.Float32() * 10, TileHeight: h.rng.Float32() * 10}
		if h.intn(150) == 0 {
			p.MaxTiles = around(16)
		}
		h.do("fresh", sprint(p.MaxTiles, p.MaxPolys), func() { check(&NavMesh{}, p) })
	}
	for n := h.n(300); n > 0; n-- {
		p := NavMeshParams{MaxTiles: around(32), MaxPolys: pick(32)}
		if h.intn(2) == 0 {
			p.MaxTiles = around(17)
		}
		if (p.MaxTiles > 1<<18 && p.MaxTiles <= 1<<31) || bits(p.MaxTiles)+bits(p.MaxPolys) <= 24 {
			continue
		}
		h.do("large", sprint(p.MaxTiles, p.MaxPolys), func() { check(&NavMesh{}, p) })
	}
	for n := h.n(300); n > 0; n-- {
		p := NavMeshParams{MaxTiles: uint32(1 + h.intn(40)), MaxPolys: uint32(1 + h.intn(500))}
		q := p
		if h.intn(2) == 0 {
			q = NavMeshParams{MaxTiles: uint32(1 + h.intn(40)), MaxPolys: uint32(1 + h.intn(500))}
		}
		h.do("again", sprint(p.MaxTiles, p.MaxPolys, q.MaxTiles, q.MaxPolys), func() {
			m := &NavMesh{}
			m.Init(&p)
			// take some slots and enter them in the index
			for k := h.intn(int(p.MaxTiles)); k > 0; k-- {
				tl := m.nextFree
				m.nextFree, tl.Next = tl.Next, nil
				tl.Salt += uint32(h.intn(3))
				tl.Header = &MeshHeader{X: int32(h.intn(9) - 4), Y: int32(h.intn(9) - 4)}
				at := computeTileHash(tl.Header.X, tl.Header.Y, m.TileLUTMask)
				tl.Next = m.posLookup[at]
				m.posLookup[at] = tl
			}
			check(m, q)
		})
	}
}
