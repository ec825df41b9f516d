package detour

import "testing"

func TestVerifC09(t *testing.T) {
	h := newVH(t, "random link tables (up to 24 links, 6 polygons, 5 tiles): allocation, release and disconnection histories against explicit lists")
	defer h.done()
	for k := 0; k < h.n(3000); k++ {
		nt := uint32(2 + h.intn(4))
		np := 1 + h.intn(6)
		nl := h.intn(25)
		pb, tb := uint32(1+h.intn(12)), uint32(3+h.intn(4))
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("link history", sprint("tiles", nt, "polys", np, "links", nl, "bits", pb, tb, "rng", seed), func() {
			m := &NavMesh{polyBits: pb, tileBits: tb, saltBits: 32 - pb - tb, MaxTiles: int32(nt)}
			m.Tiles = make([]MeshTile, nt)
			for i := range m.Tiles {
				m.Tiles[i].Salt = 1 + h.u32()%200
				m.Tiles[i].Header = &MeshHeader{}
			}
			self := uint32(h.intn(int(nt)))
			tile := &m.Tiles[self]
			// random assignment of links to polygons (-1 free, -2 handed out)
			tile.Header.PolyCount = int32(np)
			tile.Polys = make([]Poly, np+h.intn(2))
			tile.Links = make([]Link, nl)
			lists := make([][]uint32, np)
			var free, out []uint32
			perm := h.rng.Perm(nl)
			for _, l := range perm {
				switch c := h.intn(np + 2); {
				case c < np:
					lists[c] = append(lists[c], uint32(l))
				case c == np:
					free = append(free, uint32(l))
				default:
					out = append(out, uint32(l))
				}
				tile.Links[l] = Link{Edge: uint8(l), Side: uint8(h.intn(9)), BMin: uint8(l * 3), BMax: uint8(l * 5), Next: h.u32() % 30,
					Ref: m.encodePolyID(h.u32()%100, uint32(h.intn(int(nt))), h.u32()&(1<<pb-1))}
			}
			build := func(l []uint32) uint32 {
				head := nullLink
				for i := len(l) - 1; i >= 0; i-- {
					tile.Links[l[i]].Next = head
					head = l[i]
				}
				return head
			}
			for i := range lists {
				tile.Polys[i].FirstLink = build(lists[i])
			}
			for i := np; i < len(tile.Polys); i++ {
				tile.Polys[i].FirstLink = 12345
			}
			tile.LinksFreeList = build(free)
			type pay struct {
				ref                    PolyRef
				edge, side, bmin, bmax uint8
			}
			pays := make([]pay, nl)
			for l := range pays {
				x := tile.Links[l]
				pays[l] = pay{x.Ref, x.Edge, x.Side, x.BMin, x.BMax}
			}
			walk := func(head uint32, what string) []uint32 {
				var r []uint32
				for l := head; l != nullLink; l = tile.Links[l].Next {
					h.ok(int(l) < nl && len(r) <= nl, what, "chain leaves the table or loops at %d", l)
					r = append(r, l)
				}
				return r
			}
			same := func(a, b []uint32) bool {
				if len(a) != len(b) {
					return false
				}
				for i := range a {
					if a[i] != b[i] {
						return false
					}
				}
				return true
			}
			check := func(after string) {
				seen := map[uint32]bool{}
				for i := range lists {
					got := walk(tile.Polys[i].FirstLink, after)
					h.ok(same(got, lists[i]), after, "links of polygon %d are %v, want %v", i, got, lists[i])
				}
				fr := walk(tile.LinksFreeList, after)
				h.ok(len(fr) == len(free), after, "%d free links, want %d", len(fr), len(free))
				for _, l := range fr {
					h.ok(!seen[l], after, "free twice")
					seen[l] = true
				}
				for _, l := range free {
					h.ok(seen[l], after, "link %d lost", l)
				}
				for l := range pays {
					x := tile.Links[l]
					h.ok(pays[l] == pay{x.Ref, x.Edge, x.Side, x.BMin, x.BMax}, after, "content of link %d changed", l)
				}
				for i := np; i < len(tile.Polys); i++ {
					h.ok(tile.Polys[i].FirstLink == 12345, after, "a polygon beyond the count was changed")
				}
			}
			check("setup")
			rm := func(s []uint32, v uint32) []uint32 {
				var r []uint32
				for _, x := range s {
					if x != v {
						r = append(r, x)
					}
				}
				return r
			}
			for op := 0; op < 12; op++ {
				switch h.intn(3) {
				case 0:
					l := allocLink(tile)
					if len(free) == 0 {
						h.ok(l == nullLink, "alloc", "link %d although none is free", l)
						break
					}
					in := false
					for _, x := range free {
						in = in || x == l
					}
					h.ok(in, "alloc", "link %d was not free (free: %v)", l, free)
					free = rm(free, l)
					out = append(out, l)
					check("after alloc")
				case 1:
					if len(out) == 0 {
						break
					}
					l := out[h.intn(len(out))]
					freeLink(tile, l)
					out = rm(out, l)
					free = append(free, l)
					check("after free")
				default:
					tg := uint32(h.intn(int(nt)))
					m.unconnectLinks(tile, &m.Tiles[tg])
					for i := range lists {
						var keep []uint32
						for _, l := range lists[i] {
							if m.decodePolyIDTile(tile.Links[l].Ref) == tg {
								free = append(free, l)
							} else {
								keep = append(keep, l)
							}
						}
						lists[i] = keep
					}
					check("after disconnecting")
				}
			}
			m.unconnectLinks(nil, tile)
			m.unconnectLinks(tile, nil)
			check("nil tiles")
		})
	}
}
