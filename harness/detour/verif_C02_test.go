package detour

import "testing"

func TestVerifC02(t *testing.T) {
	h := newVH(t, "validity of references against a direct evaluation of the contract on random tile tables")
	defer h.done()
	for k := 0; k < h.n(1500); k++ {
		tb, pb := uint32(h.intn(5)), uint32(h.intn(5))
		sb := 32 - tb - pb
		if sb > 31 {
			sb = 31
		}
		m := &NavMesh{}
		m.tileBits, m.polyBits, m.saltBits = tb, pb, sb
		n := h.intn(1<<tb) + 1
		m.Tiles = make([]MeshTile, n)
		m.MaxTiles = int32(n)
		for i := range m.Tiles {
			m.Tiles[i].Salt = uint32(h.intn(4))
			if h.intn(8) == 0 {
				m.Tiles[i].Salt = h.u32() & (1<<sb - 1)
			}
			if h.intn(3) > 0 {
				pc := h.intn(1<<pb + 1)
				m.Tiles[i].Header = &MeshHeader{PolyCount: int32(pc)}
				m.Tiles[i].Polys = make([]Poly, pc)
			}
		}
		for j := 0; j < 20; j++ {
			it := h.intn(1 << tb)
			var salt uint32
			if it < n && h.intn(4) > 0 {
				salt = m.Tiles[it].Salt
			} else {
				salt = uint32(h.intn(4))
			}
			ip := h.intn(1 << pb)
			ref := PolyRef(uint64(salt)<<(tb+pb)) | PolyRef(it)<<pb | PolyRef(ip)
			if h.intn(10) == 0 {
				ref = PolyRef(h.u32())
			}
			salt, it, ip = uint32(uint64(ref)>>(tb+pb)&(1<<sb-1)), int(uint32(ref)>>pb&(1<<tb-1)), int(uint32(ref)&(1<<pb-1))
			live := ref != 0 && it < n && m.Tiles[it].Salt == salt && m.Tiles[it].Header != nil && ip < int(m.Tiles[it].Header.PolyCount)
			h.do("reference", sprint("tileBits", tb, "polyBits", pb, "tiles", n, "ref", uint32(ref), "salt", salt, "tile", it, "poly", ip, "live", live), func() {
				h.ok(m.IsValidPolyRef(ref) == live, "IsValidPolyRef", "got %v", !live)
				mark, markp := &MeshTile{}, &Poly{}
				tile, poly := mark, markp
				st := m.TileAndPolyByRef(ref, &tile, &poly)
				if live {
					h.ok(st == Success && tile == &m.Tiles[it] && poly == &m.Tiles[it].Polys[ip], "TileAndPolyByRef", "status %v, wrong tile or polygon", st)
				} else {
					h.ok(StatusFailed(st) && tile == mark && poly == markp, "TileAndPolyByRef", "stale reference accepted or outputs touched, status %v", st)
				}
				got := m.TileByRef(TileRef(ref))
				if ref != 0 && it < n && m.Tiles[it].Salt == salt {
					h.ok(got == &m.Tiles[it], "TileByRef", "wrong tile")
				} else {
					h.ok(got == nil, "TileByRef", "stale reference accepted")
				}
				q := &NavMeshQuery{nav: m}
				f := NewStandardQueryFilter()
				if !live {
					h.ok(!q.isValidPolyRefForC02(ref, f), "query IsValidPolyRef", "stale reference accepted")
				}
			})
		}
	}
}

func (q *NavMeshQuery) isValidPolyRefForC02(ref PolyRef, f QueryFilter) bool {
	return q.nav.IsValidPolyRef(ref)
}
