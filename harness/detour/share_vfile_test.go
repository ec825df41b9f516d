package detour

// An independent description of the tile file format (shared by several
// evaluators).

import (
	"bytes"
	"encoding/binary"
	"math"
	"reflect"
)

// An independent description of the file format.
type fPoly struct {
	FirstLink   uint32
	Verts, Neis [6]uint16
	Flags       uint16
	VertCount   uint8
	AreaAndType uint8
}
type fLink struct {
	Ref, Next              uint32
	Edge, Side, BMin, BMax uint8
}
type fDetail struct {
	VertBase, TriBase   uint32
	VertCount, TriCount uint8
	Pad                 [2]uint8
}
type fNode struct {
	BMin, BMax [3]uint16
	I          int32
}
type fCon struct {
	Pos         [6]uint32
	Rad         uint32
	Poly        uint16
	Flags, Side uint8
	UserID      uint32
}
type fHeader struct {
	Magic, Version, X, Y, Layer                                                                                                  int32
	UserID                                                                                                                       uint32
	PolyCount, VertCount, MaxLinkCount, DetailMeshCount, DetailVertCount, DetailTriCount, BvNodeCount, OffMeshConCount, OffMeshBase int32
	WalkableHeight, WalkableRadius, WalkableClimb                                                                                uint32
	BMin, BMax                                                                                                                   [3]uint32
	BvQuantFactor                                                                                                                uint32
}
type fTile struct {
	H       fHeader
	Verts   []uint32
	Polys   []fPoly
	Links   []fLink
	Details []fDetail
	DVerts  []uint32
	DTris   []uint8
	Nodes   []fNode
	Cons    []fCon
}

func fb(f float32) uint32 { return math.Float32bits(f) }

func (t *fTile) alloc() {
	h := &t.H
	t.Verts, t.Polys, t.Links = make([]uint32, 3*h.VertCount), make([]fPoly, h.PolyCount), make([]fLink, h.MaxLinkCount)
	t.Details, t.DVerts, t.DTris = make([]fDetail, h.DetailMeshCount), make([]uint32, 3*h.DetailVertCount), make([]uint8, 4*h.DetailTriCount)
	t.Nodes, t.Cons = make([]fNode, h.BvNodeCount), make([]fCon, h.OffMeshConCount)
}

func (t *fTile) parts() []interface{} {
	return []interface{}{t.Verts, t.Polys, t.Links, t.Details, t.DVerts, t.DTris, t.Nodes, t.Cons}
}

func (t *fTile) bytes() []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, &t.H)
	for _, p := range t.parts() {
		binary.Write(&b, binary.LittleEndian, p)
	}
	return b.Bytes()
}

func fParse(b []byte) (*fTile, int) {
	r := bytes.NewReader(b)
	t := &fTile{}
	if binary.Read(r, binary.LittleEndian, &t.H) != nil {
		return nil, 0
	}
	t.alloc()
	for _, p := range t.parts() {
		if reflect.ValueOf(p).Len() > 0 && binary.Read(r, binary.LittleEndian, p) != nil {
			return nil, 0
		}
	}
	return t, len(b) - r.Len()
}

// same compares a tile in memory with the description.
func (t *fTile) same(h *vh, name string, m *MeshTile, hd *MeshHeader) {
	g := fHeader{hd.Magic, hd.Version, hd.X, hd.Y, hd.Layer, hd.UserID, hd.PolyCount, hd.VertCount, hd.MaxLinkCount, hd.DetailMeshCount, hd.DetailVertCount, hd.DetailTriCount, hd.BvNodeCount, hd.OffMeshConCount, hd.OffMeshBase,
		fb(hd.WalkableHeight), fb(hd.WalkableRadius), fb(hd.WalkableClimb), [3]uint32{fb(hd.BMin[0]), fb(hd.BMin[1]), fb(hd.BMin[2])}, [3]uint32{fb(hd.BMax[0]), fb(hd.BMax[1]), fb(hd.BMax[2])}, fb(hd.BvQuantFactor)}
	h.ok(g == t.H, name, "header is %v, want %v", g, t.H)
	h.ok(len(m.Verts) == len(t.Verts) && len(m.Polys) == len(t.Polys) && len(m.Links) == len(t.Links) && len(m.DetailMeshes) == len(t.Details) && len(m.DetailVerts) == len(t.DVerts) && len(m.DetailTris) == len(t.DTris) && len(m.BvTree) == len(t.Nodes) && len(m.OffMeshCons) == len(t.Cons), name, "section sizes differ")
	for i, v := range m.Verts {
		h.ok(fb(v) == t.Verts[i], name, "vertex coordinate %d: %#x, want %#x", i, fb(v), t.Verts[i])
	}
	for i, p := range m.Polys {
		g := fPoly{p.FirstLink, p.Verts, p.Neis, p.Flags, p.VertCount, p.AreaAndType}
		h.ok(g == t.Polys[i], name, "polygon %d: %v, want %v", i, g, t.Polys[i])
	}
	for i, l := range m.Links {
		g := fLink{uint32(l.Ref), l.Next, l.Edge, l.Side, l.BMin, l.BMax}
		h.ok(g == t.Links[i], name, "link %d: %v, want %v", i, g, t.Links[i])
	}
	for i, d := range m.DetailMeshes {
		g := fDetail{d.VertBase, d.TriBase, d.VertCount, d.TriCount, t.Details[i].Pad}
		h.ok(g == t.Details[i], name, "detail mesh %d: %v, want %v", i, g, t.Details[i])
	}
	for i, v := range m.DetailVerts {
		h.ok(fb(v) == t.DVerts[i], name, "detail coordinate %d: %#x, want %#x", i, fb(v), t.DVerts[i])
	}
	h.ok(bytes.Equal(m.DetailTris, t.DTris), name, "detail triangles differ")
	for i, n := range m.BvTree {
		g := fNode{n.BMin, n.BMax, n.I}
		h.ok(g == t.Nodes[i], name, "tree node %d: %v, want %v", i, g, t.Nodes[i])
	}
	for i, o := range m.OffMeshCons {
		g := fCon{[6]uint32{fb(o.Pos[0]), fb(o.Pos[1]), fb(o.Pos[2]), fb(o.Pos[3]), fb(o.Pos[4]), fb(o.Pos[5])}, fb(o.Rad), o.Poly, o.Flags, o.Side, o.UserID}
		h.ok(g == t.Cons[i], name, "off-mesh connection %d: %v, want %v", i, g, t.Cons[i])
	}
}
