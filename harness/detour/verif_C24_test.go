package detour

// verif:share vfile

import (
	"math"
	"testing"
)

// c24Params makes arbitrary creation parameters (the polygons need not make
// geometric sense, the layout does not depend on it).
func c24Params(h *vh) *NavMeshCreateParams {
	f := func() float32 { return float32(h.intn(4001)-2000) / 16 }
	nvp := 3 + h.intn(4)
	p := &NavMeshCreateParams{Nvp: int32(nvp), VertCount: int32(1 + h.intn(20)), PolyCount: int32(1 + h.intn(9)), UserID: h.u32(), TileX: int32(h.u32()), TileY: int32(h.u32()), TileLayer: int32(h.u32()),
		WalkableHeight: f(), WalkableRadius: f(), WalkableClimb: float32(h.intn(20)) / 8, Cs: []float32{0.25, 0.3, 1, 2}[h.intn(4)], Ch: []float32{0.2, 0.5, 1}[h.intn(3)]}
	for a := range p.BMin {
		p.BMin[a] = f()
		p.BMax[a] = p.BMin[a] + float32(1+h.intn(400))/8
	}
	for i := int32(0); i < p.VertCount*3+int32(h.intn(4)); i++ {
		p.Verts = append(p.Verts, uint16(h.intn([]int{40, 65536}[h.intn(2)])))
	}
	nvs := []int{}
	for i := int32(0); i < p.PolyCount; i++ {
		nv := 3 + h.intn(nvp-2)
		nvs = append(nvs, nv)
		row := make([]uint16, 2*nvp)
		for j := range row {
			row[j] = 0xffff
			if j >= nvp {
				row[j] = 0
			}
		}
		for j := 0; j < nv; j++ {
			row[j] = uint16(h.intn(int(p.VertCount)))
			switch h.intn(3) {
			case 0:
				row[nvp+j] = uint16(h.intn(int(p.PolyCount)))
				if h.intn(8) == 0 {
					row[nvp+j] = 0x7ffe
				}
			case 1:
				row[nvp+j] = 0x800f
			case 2:
				row[nvp+j] = 0x8000 | uint16(h.intn(4))
			}
		}
		p.Polys = append(p.Polys, row...)
		p.PolyFlags = append(p.PolyFlags, uint16(h.intn(65536)))
		p.PolyAreas = append(p.PolyAreas, uint8(h.intn(64)))
	}
	if h.intn(2) == 0 {
		// detail meshes, in any order and with gaps
		p.DetailMeshes = make([]int32, 4*len(nvs))
		order := h.rng.Perm(len(nvs))
		if h.intn(2) == 0 {
			for i := range order {
				order[i] = i
			}
		}
		for _, i := range order {
			x := 0
			if h.intn(3) > 0 {
				x = h.intn(5)
			}
			if h.intn(20) == 0 {
				x = 200
			}
			ndv := nvs[i] + x
			copy(p.DetailMeshes[4*i:], []int32{int32(len(p.DetailVerts) / 3), int32(ndv), int32(h.intn(1000)), int32(h.intn(256))})
			for j := 0; j < 3*ndv; j++ {
				p.DetailVerts = append(p.DetailVerts, f())
			}
			if h.intn(4) == 0 {
				p.DetailVerts = append(p.DetailVerts, 1, 2, 3)
			}
		}
		p.DetailVertsCount = int32(len(p.DetailVerts) / 3)
		p.DetailTriCount = int32(h.intn(12))
		for i := int32(0); i < 4*p.DetailTriCount+int32(h.intn(3)); i++ {
			p.DetailTris = append(p.DetailTris, uint8(h.intn(256)))
		}
	}
	p.OffMeshConCount = int32(h.intn(7)) * int32(h.intn(2))
	for i := int32(0); i < p.OffMeshConCount; i++ {
		for e := 0; e < 2; e++ {
			for a := 0; a < 3; a++ {
				v := p.BMin[a] + (float32(h.intn(1001))/500-0.5)*(p.BMax[a]-p.BMin[a])
				switch h.intn(6) {
				case 0:
					v = p.BMin[a]
				case 1:
					v = p.BMax[a]
				case 2, 3:
					v = p.BMin[a] + float32(h.rng.Float64())*(p.BMax[a]-p.BMin[a])
				}
				p.OffMeshConVerts = append(p.OffMeshConVerts, v)
			}
		}
		p.OffMeshConRad = append(p.OffMeshConRad, f())
		p.OffMeshConFlags = append(p.OffMeshConFlags, uint16(h.intn(65536)))
		p.OffMeshConAreas = append(p.OffMeshConAreas, uint8(h.intn(64)))
		p.OffMeshConDir = append(p.OffMeshConDir, uint8(h.intn(3)))
		p.OffMeshConUserID = append(p.OffMeshConUserID, h.u32())
	}
	if h.intn(3) == 0 {
		p.OffMeshConUserID = nil
	}
	p.BuildBvTree = h.intn(2) == 0
	return p
}

// c24Side is the side of the tile a point lies beyond: counted from x+ in
// steps of an eighth of a turn towards z+; 255 within.
func c24Side(p *NavMeshCreateParams, v []float32) uint8 {
	dx, dz := 0, 0
	if v[0] >= p.BMax[0] {
		dx = 1
	} else if v[0] < p.BMin[0] {
		dx = -1
	}
	if v[2] >= p.BMax[2] {
		dz = 1
	} else if v[2] < p.BMin[2] {
		dz = -1
	}
	return [3][3]uint8{{5, 4, 3}, {6, 255, 2}, {7, 0, 1}}[dx+1][dz+1]
}

func c24Check(h *vh, p *NavMeshCreateParams, what string) {
	b, err := CreateNavMeshData(p)
	h.ok(err == nil, "accepted", "error %v: %s", err, what)
	t, used := fParse(b)
	h.ok(t != nil && used == len(b), "size", "%d bytes, the header's counts take %d: %s", len(b), used, what)
	hd := t.H
	np, nvp := int(p.PolyCount), int(p.Nvp)
	// what is stored of the connections
	lo, hi := float32(math.MaxFloat32), float32(-math.MaxFloat32)
	hs := func(y float32) {
		if y < lo {
			lo = y
		}
		if y > hi {
			hi = y
		}
	}
	if len(p.DetailVerts) > 0 {
		for i := 0; i < int(p.DetailVertsCount); i++ {
			hs(p.DetailVerts[3*i+1])
		}
	} else {
		for i := 0; i < int(p.VertCount); i++ {
			hs(p.BMin[1] + float32(p.Verts[3*i+1])*p.Ch)
		}
	}
	lo, hi = lo-p.WalkableClimb, hi+p.WalkableClimb
	var stored []int
	for i := 0; i < int(p.OffMeshConCount); i++ {
		v := p.OffMeshConVerts[6*i:]
		if c24Side(p, v) == 255 && v[1] >= lo && v[1] <= hi {
			stored = append(stored, i)
		}
	}
	nc := len(stored)
	bn := int32(len(t.Nodes))
	h.ok(hd.Magic == 'D'<<24|'N'<<16|'A'<<8|'V' && hd.Version == 7 && hd.X == p.TileX && hd.Y == p.TileY && hd.Layer == p.TileLayer && hd.UserID == p.UserID, "header", "%v: %s", hd, what)
	h.ok(hd.PolyCount == int32(np+nc) && hd.VertCount == p.VertCount+int32(2*nc) && hd.DetailMeshCount == int32(np) && hd.OffMeshBase == int32(np) && hd.OffMeshConCount == int32(nc), "counts", "%v with %d of %d connections: %s", hd, nc, p.OffMeshConCount, what)
	h.ok(hd.WalkableHeight == fb(p.WalkableHeight) && hd.WalkableRadius == fb(p.WalkableRadius) && hd.WalkableClimb == fb(p.WalkableClimb) && hd.BvQuantFactor == fb(1/p.Cs), "header", "%v: %s", hd, what)
	for a := 0; a < 3; a++ {
		h.ok(hd.BMin[a] == fb(p.BMin[a]) && hd.BMax[a] == fb(p.BMax[a]), "header", "bounds: %s", what)
	}
	// vertices
	for i := 0; i < int(p.VertCount); i++ {
		for a, c := range []float32{p.Cs, p.Ch, p.Cs} {
			w := p.BMin[a] + float32(p.Verts[3*i+a])*c
			h.ok(t.Verts[3*i+a] == fb(w), "vertices", "vertex %d: %v, want %v: %s", i, math.Float32frombits(t.Verts[3*i+a]), w, what)
		}
	}
	// polygons
	edges, portals := 0, 0
	nvs := make([]int, np)
	for i := 0; i < np; i++ {
		row := p.Polys[2*nvp*i:]
		w := fPoly{Flags: p.PolyFlags[i], AreaAndType: p.PolyAreas[i]}
		for j := 0; j < nvp && row[j] != 0xffff; j++ {
			w.Verts[j] = row[j]
			w.VertCount++
			edges++
			switch n := row[nvp+j]; {
			case n == 0x800f:
			case n >= 0x8000:
				portals++
				w.Neis[j] = 0x8000 | []uint16{4, 2, 0, 6}[n&3]
			default:
				w.Neis[j] = n + 1
			}
		}
		nvs[i] = int(w.VertCount)
		g := t.Polys[i]
		g.FirstLink = 0
		h.ok(g == w, "polygons", "polygon %d: %v, want %v: %s", i, g, w, what)
	}
	h.ok(int(hd.MaxLinkCount) >= edges+portals+2*nc, "links", "room for %d links, %d edges, %d portals, %d connections: %s", hd.MaxLinkCount, edges, portals, nc, what)
	for k, i := range stored {
		v := p.OffMeshConVerts[6*i:]
		w := fPoly{Flags: p.OffMeshConFlags[i], AreaAndType: p.OffMeshConAreas[i] | 1<<6, VertCount: 2}
		w.Verts[0], w.Verts[1] = uint16(int(p.VertCount)+2*k), uint16(int(p.VertCount)+2*k+1)
		g := t.Polys[np+k]
		g.FirstLink = 0
		h.ok(g == w, "connections", "polygon of connection %d: %v, want %v: %s", i, g, w, what)
		c := fCon{Rad: fb(p.OffMeshConRad[i]), Poly: uint16(np + k), Side: c24Side(p, v[3:])}
		if p.OffMeshConDir[i] != 0 {
			c.Flags = 1
		}
		if p.OffMeshConUserID != nil {
			c.UserID = p.OffMeshConUserID[i]
		}
		for a := 0; a < 6; a++ {
			c.Pos[a] = fb(v[a])
			h.ok(t.Verts[3*(int(p.VertCount)+2*k)+a] == fb(v[a]), "connections", "vertices of connection %d: %s", i, what)
		}
		h.ok(t.Cons[k] == c, "connections", "connection %d: %v, want %v: %s", i, t.Cons[k], c, what)
	}
	// detail meshes
	if p.DetailMeshes != nil {
		at := uint32(0)
		for i := 0; i < np; i++ {
			d := p.DetailMeshes[4*i:]
			x := int(d[1]) - nvs[i]
			g := t.Details[i]
			h.ok(int(g.VertCount) == x && g.TriBase == uint32(d[2]) && g.TriCount == uint8(d[3]) && (x == 0 || int(g.VertBase)+x <= len(t.DVerts)/3), "details", "detail mesh %d: %v, source %v: %s", i, g, d[:4], what)
			h.ok(x == 0 || g.VertBase == at, "details", "detail mesh %d starts at %d, want %d: %s", i, g.VertBase, at, what)
			for j := 0; j < 3*x; j++ {
				h.ok(t.DVerts[3*int(g.VertBase)+j] == fb(p.DetailVerts[3*(int(d[0])+nvs[i])+j]), "details", "detail vertices of polygon %d: %s", i, what)
			}
			at += uint32(x)
		}
		h.ok(int(at) == len(t.DVerts)/3 && hd.DetailTriCount == p.DetailTriCount, "details", "%d vertices, want %d: %s", len(t.DVerts)/3, at, what)
		for i := 0; i < 4*int(p.DetailTriCount); i++ {
			h.ok(t.DTris[i] == p.DetailTris[i], "details", "triangle %d: %s", i/4, what)
		}
	} else {
		at := 0
		for i := 0; i < np; i++ {
			g := t.Details[i]
			h.ok(g.VertCount == 0 && int(g.TriBase) == at && int(g.TriCount) == nvs[i]-2, "details", "detail mesh %d: %v: %s", i, g, what)
			for j := 2; j < nvs[i]; j++ {
				tr := t.DTris[4*at:]
				h.ok(tr[0] == 0 && int(tr[1]) == j-1 && int(tr[2]) == j, "details", "triangle %d of polygon %d: %v: %s", j-2, i, tr[:4], what)
				w := uint8(4)
				if j == 2 {
					w |= 1
				}
				if j == nvs[i]-1 {
					w |= 16
				}
				h.ok(tr[3] == w, "details", "boundary edges of triangle %d of polygon %d: %#x, want %#x: %s", j-2, i, tr[3], w, what)
				at++
			}
		}
		h.ok(at == int(hd.DetailTriCount) && hd.DetailVertCount == 0, "details", "%d triangles, want %d: %s", hd.DetailTriCount, at, what)
	}
	// tree
	if !p.BuildBvTree {
		h.ok(bn == 0, "tree", "%d nodes: %s", bn, what)
	} else {
		h.ok(int(bn) >= 2*np-1, "tree", "%d nodes for %d polygons: %s", bn, np, what)
		seen := map[int32]bool{}
		for _, n := range t.Nodes[:2*np-1] {
			if n.I >= 0 {
				h.ok(!seen[n.I] && int(n.I) < np, "tree", "leaf %d: %s", n.I, what)
				seen[n.I] = true
			}
		}
		h.ok(len(seen) == np, "tree", "%d leaves for %d polygons: %s", len(seen), np, what)
	}
	for _, l := range t.Links {
		h.ok(l == fLink{}, "links", "link %v: %s", l, what)
	}
}

func TestVerifC24(t *testing.T) {
	h := newVH(t, "arbitrary creation parameters against an independent description of the layout; parameters at and beyond the limits")
	defer h.done()
	for k := 0; k < h.n(20000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("layout", sprint("seed", seed), func() {
			p := c24Params(h)
			c24Check(h, p, sprint("polygons", p.PolyCount, "connections", p.OffMeshConCount))
		})
	}
	// end points around the tile
	for k := 0; k < h.n(20000); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("sides", sprint("seed", seed), func() {
			p := &NavMeshCreateParams{}
			v := make([]float32, 3)
			for a := 0; a < 3; a++ {
				p.BMin[a] = float32(h.intn(9) - 4)
				p.BMax[a] = p.BMin[a] + float32(1+h.intn(4))
				v[a] = float32(h.intn(60)-24) / 4
			}
			g := classifyOffMeshPoint(v, p.BMin[:], p.BMax[:])
			h.ok(g == c24Side(p, v), "side", "point %v of tile %v %v: %d, want %d", v, p.BMin, p.BMax, g, c24Side(p, v))
		})
	}
	// limits
	for k := 0; k < h.n(400); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("refused", sprint("seed", seed), func() {
			p := c24Params(h)
			what := ""
			switch h.intn(9) {
			case 0:
				p.Nvp, what = int32(7+h.intn(20)), "too many vertices per polygon"
			case 1:
				p.VertCount, what = int32(0xffff+h.intn(3)), "too many vertices"
				p.Verts = make([]uint16, 3*p.VertCount)
			case 2:
				p.VertCount, what = int32(-h.intn(3)), "no vertices"
			case 3:
				p.Verts, what = nil, "vertices missing"
			case 4:
				p.PolyCount, what = int32(-h.intn(3)), "no polygons"
			case 5:
				p.Polys, what = nil, "polygons missing"
			case 6, 7:
				n := int32(0x8000 + h.intn(3))
				r := p.Polys[:2*p.Nvp]
				p.PolyCount, p.Polys, what = n, nil, "too many polygons"
				for i := int32(0); i < n; i++ {
					p.Polys = append(p.Polys, r...)
				}
				p.PolyFlags, p.PolyAreas = make([]uint16, n), make([]uint8, n)
				p.DetailMeshes, p.DetailVerts, p.BuildBvTree = nil, nil, false
			case 8:
				// the connections' vertices do not fit
				p.DetailMeshes, p.DetailVerts, p.DetailVertsCount, p.BuildBvTree = nil, nil, 0, false
				p.VertCount, p.WalkableClimb, what = int32(0xffff-2-h.intn(3)), 1e6, "too many vertices with the connections"
				p.Verts = make([]uint16, 3*p.VertCount)
				p.OffMeshConCount = 2
				p.OffMeshConVerts = nil
				for i := 0; i < 4; i++ {
					p.OffMeshConVerts = append(p.OffMeshConVerts, p.BMin[0], p.BMin[1], p.BMin[2])
				}
				p.OffMeshConRad, p.OffMeshConFlags, p.OffMeshConAreas, p.OffMeshConDir, p.OffMeshConUserID = make([]float32, 2), make([]uint16, 2), make([]uint8, 2), make([]uint8, 2), nil
			}
			b, err := CreateNavMeshData(p)
			h.ok(err != nil && len(b) == 0, "refused", "%s: %d bytes, error %v", what, len(b), err)
		})
	}
	h.do("largest", "most vertices and polygons", func() {
		p := c24Params(h)
		for p.OffMeshConCount > 0 {
			p = c24Params(h)
		}
		p.DetailMeshes, p.DetailVerts, p.DetailTris, p.DetailVertsCount, p.DetailTriCount = nil, nil, nil, 0, 0
		p.VertCount = 0xfffe
		for len(p.Verts) < 3*0xfffe {
			p.Verts = append(p.Verts, uint16(h.intn(1000)))
		}
		r := p.Polys[:2*p.Nvp]
		for n := int32(len(p.PolyFlags)); n < 0x7fff; n++ {
			p.Polys = append(p.Polys, r...)
			p.PolyFlags, p.PolyAreas = append(p.PolyFlags, 1), append(p.PolyAreas, 3)
		}
		p.PolyCount = 0x7fff
		c24Check(h, p, "largest")
	})
}
