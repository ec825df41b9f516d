package detour

// Seeded multi-tile navigation meshes on a cell grid, with the adjacency
// known by construction (shared by several evaluators).

import (
	"fmt"
)

// vpolyg is one polygon of the world.
type vpolyg struct {
	tile   int // index in world.tiles
	idx    int // index within the tile
	verts  [][3]int // global corner coordinates (x, height, z), in voxels
	area   uint8
	flags  uint16
	ref    PolyRef
	adj    map[int]bool // neighbours (indices in world.polys)
	cells  [][2]int
	detail bool
}

type vtileg struct {
	tx, ty int
	params *NavMeshCreateParams
	data   []byte
	ref    TileRef
	polys  []int
}

type vconn struct {
	a, b  [3]float32
	rad   float32
	dir   uint8
	flags uint16
	area  uint8
	id    uint32
}

type vworld struct {
	gw, gd, ts, step int // grid size, tile size (cells), voxels per cell
	cs, ch           float32
	org              [3]float32
	polys            []*vpolyg
	tiles            []*vtileg
	cell             map[[2]int][]int // polygons of a cell
	hgt              map[[2]int]int   // corner heights
	jit              map[[2]int][2]int // corner displacements
	nav              *NavMesh
	desc             string
	conns            []vconn
	bv               bool
}

func (w *vworld) corner(x, z int) [3]int {
	j := w.jit[[2]int{x, z}]
	return [3]int{x*w.step + j[0], w.hgt[[2]int{x, z}], z*w.step + j[1]}
}

func (w *vworld) pos(v [3]int) [3]float32 {
	return [3]float32{w.org[0] + float32(v[0])*w.cs, w.org[1] + float32(v[1])*w.ch, w.org[2] + float32(v[2])*w.cs}
}

// vopt selects the features of a generated world.
type vopt struct {
	flat    bool
	noTris  bool
	noMerge bool
	single  bool // a single tile
	full    bool // no holes
	nobv    bool
	conns   int
	maxW    int
	base    int32 // tile coordinate offset
	jitter  bool  // displaced corners (one tile, no merged cells)
}

// newVWorld makes the polygons and the creation parameters of every tile.
func newVWorld(h *vh, o vopt) *vworld {
	w := &vworld{cell: map[[2]int][]int{}, hgt: map[[2]int]int{}, bv: !o.nobv}
	mw := o.maxW
	if mw == 0 {
		mw = 7
	}
	w.gw, w.gd = 1+h.intn(mw), 1+h.intn(mw)
	w.ts = 1 + h.intn(4)
	if o.single {
		w.ts = w.gw
		if w.gd > w.ts {
			w.ts = w.gd
		}
	}
	w.step = 2 + h.intn(6)
	if o.jitter {
		o.single, o.noMerge = true, true
		w.ts = vmax(w.gw, w.gd)
		w.step = 40
		w.jit = map[[2]int][2]int{}
		for x := 1; x < w.gw; x++ {
			for z := 1; z < w.gd; z++ {
				w.jit[[2]int{x, z}] = [2]int{h.intn(19) - 9, h.intn(19) - 9}
			}
		}
	}
	w.cs = []float32{0.25, 0.3, 0.5, 1}[h.intn(4)]
	w.ch = []float32{0.2, 0.25, 0.5}[h.intn(3)]
	if h.intn(2) == 0 {
		w.org = [3]float32{float32(h.intn(9)-4) * 2.5, float32(h.intn(5) - 2), float32(h.intn(9)-4) * 3}
	}
	hm := 1
	if !o.flat && h.intn(2) == 0 {
		hm = 4
	}
	for x := 0; x <= w.gw; x++ {
		for z := 0; z <= w.gd; z++ {
			w.hgt[[2]int{x, z}] = 3 + h.intn(hm)
		}
	}
	hole := h.intn(5)
	if o.full {
		hole = 0
	}
	used := map[[2]int]bool{}
	for z := 0; z < w.gd; z++ {
		for x := 0; x < w.gw; x++ {
			c := [2]int{x, z}
			if used[c] {
				continue
			}
			used[c] = true
			if h.intn(10) < hole {
				continue
			}
			area, flags := uint8(h.intn(6)), uint16(1<<uint(h.intn(4)))|uint16(h.intn(16))
			tx, tz := x/w.ts, z/w.ts
			v00, v01 := w.corner(x, z), w.corner(x, z+1)
			v10, v11 := w.corner(x+1, z), w.corner(x+1, z+1)
			if !o.noMerge && x+1 < w.gw && (x+1)/w.ts == tx && h.intn(3) == 0 {
				used[[2]int{x + 1, z}] = true
				p := &vpolyg{area: area, flags: flags, cells: [][2]int{c, {x + 1, z}}}
				v20, v21 := w.corner(x+2, z), w.corner(x+2, z+1)
				p.verts = append(p.verts, v00, v01)
				// no middle vertices on a tile border: two neighbours share one edge part
				if (z+1)%w.ts != 0 {
					p.verts = append(p.verts, v11)
				}
				p.verts = append(p.verts, v21, v20)
				if z%w.ts != 0 {
					p.verts = append(p.verts, v10)
				}
				w.add(p, tx, tz)
				continue
			}
			if !o.noTris && h.intn(4) == 0 {
				p := &vpolyg{area: area, flags: flags, cells: [][2]int{c}}
				q := &vpolyg{area: uint8(h.intn(6)), flags: flags, cells: [][2]int{c}}
				if h.intn(2) == 0 {
					p.verts = [][3]int{v00, v01, v11}
					q.verts = [][3]int{v00, v11, v10}
				} else {
					p.verts = [][3]int{v00, v01, v10}
					q.verts = [][3]int{v01, v11, v10}
				}
				w.add(p, tx, tz)
				w.add(q, tx, tz)
				continue
			}
			w.add(&vpolyg{area: area, flags: flags, cells: [][2]int{c}, verts: [][3]int{v00, v01, v11, v10}}, tx, tz)
		}
	}
	if len(w.polys) == 0 {
		return newVWorld(h, o)
	}
	// rotate vertex orders
	for _, p := range w.polys {
		k := h.intn(len(p.verts))
		p.verts = append(append([][3]int{}, p.verts[k:]...), p.verts[:k]...)
	}
	for i := 0; i < o.conns; i++ {
		pt := func() [3]float32 {
			v := [3]float32{w.org[0] + float32(h.rng.Float64())*float32(w.gw*w.step)*w.cs, w.org[1] + float32(3+h.intn(2))*w.ch, w.org[2] + float32(h.rng.Float64())*float32(w.gd*w.step)*w.cs}
			return v
		}
		w.conns = append(w.conns, vconn{a: pt(), b: pt(), rad: 0.2 + float32(h.intn(5))*0.2, dir: uint8(h.intn(2)), flags: uint16(1 + h.intn(15)), area: uint8(h.intn(6)), id: uint32(h.intn(1000))})
	}
	w.link()
	for _, t := range w.tiles {
		w.mkparams(h, t, o)
	}
	w.desc = fmt.Sprintf("%dx%d cells, tiles of %d, %d polygons", w.gw, w.gd, w.ts, len(w.polys))
	return w
}

func (w *vworld) add(p *vpolyg, tx, tz int) {
	ti := -1
	for i, t := range w.tiles {
		if t.tx == tx && t.ty == tz {
			ti = i
		}
	}
	if ti < 0 {
		ti = len(w.tiles)
		w.tiles = append(w.tiles, &vtileg{tx: tx, ty: tz})
	}
	p.tile = ti
	p.idx = len(w.tiles[ti].polys)
	p.adj = map[int]bool{}
	w.tiles[ti].polys = append(w.tiles[ti].polys, len(w.polys))
	for _, c := range p.cells {
		w.cell[c] = append(w.cell[c], len(w.polys))
	}
	w.polys = append(w.polys, p)
}

// side tells which tile border the edge a-b lies on (-1 when none).
func (w *vworld) side(t *vtileg, a, b [3]int) int {
	s := w.step * w.ts
	if a[0] == b[0] {
		if a[0] == t.tx*s {
			return 0
		}
		if a[0] == (t.tx+1)*s {
			return 2
		}
	}
	if a[2] == b[2] {
		if a[2] == (t.ty+1)*s {
			return 1
		}
		if a[2] == t.ty*s {
			return 3
		}
	}
	return -1
}

// link fills the neighbour sets by comparing edges.
func (w *vworld) link() {
	type edge struct {
		p    int
		a, b [3]int
	}
	var es []edge
	for i, p := range w.polys {
		for j := range p.verts {
			es = append(es, edge{i, p.verts[j], p.verts[(j+1)%len(p.verts)]})
		}
	}
	for i := range es {
		for j := range es {
			a, b := es[i], es[j]
			if a.p == b.p {
				continue
			}
			if w.polys[a.p].tile == w.polys[b.p].tile {
				if a.a == b.b && a.b == b.a {
					w.polys[a.p].adj[b.p] = true
				}
				continue
			}
			sa := w.side(w.tiles[w.polys[a.p].tile], a.a, a.b)
			sb := w.side(w.tiles[w.polys[b.p].tile], b.a, b.b)
			if sa < 0 || sb < 0 || (sa+2)%4 != sb {
				continue
			}
			ax := 0 // axis the edge is constant in
			if sa%2 == 1 {
				ax = 2
			}
			if a.a[ax] != b.a[ax] {
				continue
			}
			o := 2 - ax
			lo, hi := vmax(vmin(a.a[o], a.b[o]), vmin(b.a[o], b.b[o])), vmin(vmax(a.a[o], a.b[o]), vmax(b.a[o], b.b[o]))
			if lo < hi {
				w.polys[a.p].adj[b.p] = true
			}
		}
	}
}

func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func vmax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (w *vworld) mkparams(h *vh, t *vtileg, o vopt) {
	const nvp = 6
	p := &NavMeshCreateParams{Nvp: nvp, Cs: w.cs, Ch: w.ch, UserID: uint32(h.intn(1000)), TileX: o.base + int32(t.tx), TileY: o.base + int32(t.ty), BuildBvTree: !o.nobv,
		WalkableHeight: 2, WalkableRadius: 0.6, WalkableClimb: 3.9}
	s := w.step * w.ts
	p.BMin = w.pos([3]int{t.tx * s, 0, t.ty * s})
	p.BMax = w.pos([3]int{(t.tx + 1) * s, 20, (t.ty + 1) * s})
	vi := map[[3]int]int{}
	for _, pi := range t.polys {
		q := w.polys[pi]
		for _, v := range q.verts {
			if _, ok := vi[v]; !ok {
				vi[v] = len(vi)
				p.Verts = append(p.Verts, uint16(v[0]-t.tx*s), uint16(v[1]), uint16(v[2]-t.ty*s))
			}
		}
	}
	p.VertCount = int32(len(vi))
	dtl := w.bv || h.intn(2) == 0
	for _, pi := range t.polys {
		q := w.polys[pi]
		row := make([]uint16, 2*nvp)
		for j := range row {
			row[j] = 0xffff
		}
		for j, v := range q.verts {
			row[j] = uint16(vi[v])
			b := q.verts[(j+1)%len(q.verts)]
			nei := -1
			for k := range q.adj {
				o := w.polys[k]
				if o.tile != q.tile {
					continue
				}
				for m, ov := range o.verts {
					if ov == b && o.verts[(m+1)%len(o.verts)] == v {
						nei = o.idx
					}
				}
			}
			sd := w.side(t, v, b)
			switch {
			case nei >= 0:
				row[nvp+j] = uint16(nei)
			case sd >= 0:
				row[nvp+j] = 0x8000 | uint16(sd)
			default:
				row[nvp+j] = 0x800f
			}
		}
		p.Polys = append(p.Polys, row...)
		p.PolyFlags = append(p.PolyFlags, q.flags)
		p.PolyAreas = append(p.PolyAreas, q.area)
		p.PolyCount++
		if dtl {
			n := len(q.verts)
			vb, tb := len(p.DetailVerts)/3, len(p.DetailTris)/4
			var cx, cy, cz float32
			for _, v := range q.verts {
				f := w.pos(v)
				p.DetailVerts = append(p.DetailVerts, f[0], f[1], f[2])
				cx, cy, cz = cx+f[0], cy+f[1], cz+f[2]
			}
			nd := n
			if h.intn(3) == 0 {
				// an inner vertex at the centre
				q.detail = true
				fn := float32(n)
				p.DetailVerts = append(p.DetailVerts, cx/fn, cy/fn, cz/fn)
				nd++
				for j := 0; j < n; j++ {
					p.DetailTris = append(p.DetailTris, uint8(n), uint8(j), uint8((j+1)%n), 1)
				}
			} else {
				for j := 2; j < n; j++ {
					p.DetailTris = append(p.DetailTris, 0, uint8(j-1), uint8(j), 0)
				}
			}
			p.DetailMeshes = append(p.DetailMeshes, int32(vb), int32(nd), int32(tb), int32(len(p.DetailTris)/4-tb))
		}
	}
	p.DetailVertsCount = int32(len(p.DetailVerts) / 3)
	p.DetailTriCount = int32(len(p.DetailTris) / 4)
	for _, c := range w.conns {
		p.OffMeshConVerts = append(p.OffMeshConVerts, c.a[0], c.a[1], c.a[2], c.b[0], c.b[1], c.b[2])
		p.OffMeshConRad = append(p.OffMeshConRad, c.rad)
		p.OffMeshConDir = append(p.OffMeshConDir, c.dir)
		p.OffMeshConFlags = append(p.OffMeshConFlags, c.flags)
		p.OffMeshConAreas = append(p.OffMeshConAreas, c.area)
		p.OffMeshConUserID = append(p.OffMeshConUserID, c.id)
		p.OffMeshConCount++
	}
	t.params = p
}

// build adds every tile to a new mesh and fills the references.
func (w *vworld) build(h *vh) {
	w.nav = &NavMesh{}
	mt, mp := 0, 1
	for _, t := range w.tiles {
		mt++
		mp = vmax(mp, len(t.polys)+len(w.conns))
	}
	s := float32(w.step*w.ts) * w.cs
	st := w.nav.Init(&NavMeshParams{Orig: w.org, TileWidth: s, TileHeight: s, MaxTiles: uint32(mt + 1), MaxPolys: uint32(mp + 1)})
	h.ok(StatusSucceed(st), "world: init", "Init fails: %v", st)
	for _, t := range w.tiles {
		var err error
		t.data, err = CreateNavMeshData(t.params)
		h.ok(err == nil, "world: data", "CreateNavMeshData: %v", err)
	}
	for _, i := range h.rng.Perm(len(w.tiles)) {
		st, ref := w.nav.AddTile(w.tiles[i].data, 0)
		h.ok(StatusSucceed(st) && ref != 0, "world: add", "AddTile: %v %v", st, ref)
		w.tiles[i].ref = ref
	}
	for _, p := range w.polys {
		p.ref = PolyRef(w.tiles[p.tile].ref) | PolyRef(p.idx)
	}
}

// find gives the world's polygon for a reference (-1 when none).
func (w *vworld) find(ref PolyRef) int {
	for i, p := range w.polys {
		if p.ref == ref {
			return i
		}
	}
	return -1
}

// center is a point strictly inside the polygon.
func (w *vworld) center(i int) [3]float32 {
	var c [3]float32
	p := w.polys[i]
	for _, v := range p.verts {
		f := w.pos(v)
		for k := range c {
			c[k] += f[k] / float32(len(p.verts))
		}
	}
	return c
}

// inside picks a random point of the polygon (a convex combination).
func (w *vworld) inside(h *vh, i int) [3]float32 {
	var c [3]float32
	p := w.polys[i]
	ws := make([]float64, len(p.verts))
	var s float64
	for j := range ws {
		ws[j] = 0.05 + h.rng.Float64()
		s += ws[j]
	}
	for j, v := range p.verts {
		f := w.pos(v)
		for k := range c {
			c[k] += f[k] * float32(ws[j]/s)
		}
	}
	return c
}

// shared gives the part of an edge two neighbours have in common.
func (w *vworld) shared(i, j int) (lo, hi [3]float32, ok bool) {
	p, q := w.polys[i], w.polys[j]
	for a := range p.verts {
		pa, pb := p.verts[a], p.verts[(a+1)%len(p.verts)]
		for b := range q.verts {
			qa, qb := q.verts[b], q.verts[(b+1)%len(q.verts)]
			if p.tile == q.tile {
				if pa == qb && pb == qa {
					return w.pos(pa), w.pos(pb), true
				}
				continue
			}
			for _, ax := range []int{0, 2} {
				if pa[ax] == pb[ax] && qa[ax] == qb[ax] && pa[ax] == qa[ax] {
					o := 2 - ax
					l, u := vmax(vmin(pa[o], pb[o]), vmin(qa[o], qb[o])), vmin(vmax(pa[o], pb[o]), vmax(qa[o], qb[o]))
					if l < u {
						va, vb := pa, pa
						va[o], vb[o] = l, u
						return w.pos(va), w.pos(vb), true
					}
				}
			}
		}
	}
	return
}
