id='C05-polyflags'
property='C05'
pkg='detour'
needs='a polygon with one of the upper eight flags set'
breaks='the upper eight flags of a polygon are lost when a tile is read'
edits=[('detour/tile.go','''		p.Flags = little.Uint16(src[off:])
		p.VertCount = src[off+2]
		p.AreaAndType = src[off+3]
		off += 4
''','''		p.Flags = uint16(src[off])
		p.VertCount = src[off+2]
		p.AreaAndType = src[off+3]
		off += 4
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	p := &NavMeshCreateParams{
		Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 1,
		Polys: []uint16{0, 1, 2, 3, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff},
		PolyFlags: []uint16{0x8001}, PolyAreas: []uint8{0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1,
	}
	d, err := CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 4, MaxPolys: 8})
	_, r := m.AddTile(d, 0)
	if f := m.TileByRef(r).Polys[0].Flags; f != 0x8001 {
		t.Fatalf("flags %#x", f)
	}
}
'''
