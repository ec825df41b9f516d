package detour

import "testing"

func TestVerifC01(t *testing.T) {
	h := newVH(t, "reference codec over all splits of the 32 bits and boundary/random field values")
	defer h.done()
	for tb := uint32(0); tb <= 22; tb++ {
		for pb := uint32(0); tb+pb <= 22; pb++ {
			sb := 32 - tb - pb
			if sb > 31 {
				sb = 31
			}
			m := &NavMesh{}
			m.tileBits, m.polyBits, m.saltBits = tb, pb, sb
			for k := 0; k < h.n(12); k++ {
				salt, it, ip := h.u32()&(1<<sb-1), h.u32()&(1<<tb-1), h.u32()&(1<<pb-1)
				in := sprint("tileBits", tb, "polyBits", pb, "saltBits", sb, "salt", salt, "tile", it, "poly", ip)
				h.do("round trip", in, func() {
					r := m.encodePolyID(salt, it, ip)
					want := PolyRef(uint64(salt)<<(pb+tb) | uint64(it)<<pb | uint64(ip))
					h.ok(r == want, "layout", "encoded %#x want %#x", r, want)
					h.ok(m.decodePolyIDSalt(r) == salt, "decodePolyIDSalt", "got %d", m.decodePolyIDSalt(r))
					h.ok(m.decodePolyIDTile(r) == it, "decodePolyIDTile", "got %d", m.decodePolyIDTile(r))
					h.ok(m.decodePolyIDPoly(r) == ip, "decodePolyIDPoly", "got %d", m.decodePolyIDPoly(r))
					var a, b, c uint32
					m.DecodePolyID(r, &a, &b, &c)
					h.ok(a == salt && b == it && c == ip, "DecodePolyID", "got %d %d %d", a, b, c)
				})
				ref := PolyRef(h.u32())
				h.do("decode", sprint(in, "ref", uint32(ref)), func() {
					var a, b, c uint32
					m.DecodePolyID(ref, &a, &b, &c)
					h.ok(a == uint32(uint64(ref)>>(pb+tb)&(1<<sb-1)) && b == uint32(ref)>>pb&(1<<tb-1) && c == uint32(ref)&(1<<pb-1), "DecodePolyID fields", "got %d %d %d", a, b, c)
					h.ok(m.decodePolyIDSalt(ref) == a && m.decodePolyIDTile(ref) == b && m.decodePolyIDPoly(ref) == c, "decoders disagree", "")
				})
			}
			nt := 1 << tb
			if nt > 64 {
				nt = 64
			}
			m.Tiles = make([]MeshTile, nt)
			m.MaxTiles = int32(nt)
			for k := 0; k < 6; k++ {
				i := h.intn(nt)
				salt := h.u32() & (1<<sb - 1)
				h.do("tile ref", sprint("tileBits", tb, "polyBits", pb, "slot", i, "salt", salt), func() {
					m.Tiles[i].Salt = salt
					want := m.encodePolyID(salt, uint32(i), 0)
					h.ok(m.TileRef(&m.Tiles[i]) == TileRef(want), "TileRef", "got %#x want %#x", m.TileRef(&m.Tiles[i]), want)
					h.ok(m.polyRefBase(&m.Tiles[i]) == want, "polyRefBase", "got %#x want %#x", m.polyRefBase(&m.Tiles[i]), want)
					h.ok(m.TileRef(nil) == 0 && m.polyRefBase(nil) == 0, "nil tile", "")
				})
			}
		}
	}
}
