id='C04-relocate'
property='C04'
pkg='detour'
needs='a tile added back into its old slot while that slot is not the first free one'
breaks='the free slots in front of it are lost: later additions report a full table although slots are free'
edits=[('detour/mesh.go','''		if prev == nil {
			m.nextFree = tile.Next
		} else {
			prev.Next = tile.Next
		}
''','''		if prev != nil {
			prev.Next = nil
		}
		m.nextFree = tile.Next
''')]
test='''
import "testing"

func tile(t *testing.T, x int32) []byte {
	p := &NavMeshCreateParams{
		TileX: x, Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 1,
		Polys: []uint16{0, 1, 2, 3, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff},
		PolyFlags: []uint16{1}, PolyAreas: []uint8{0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1,
	}
	d, err := CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	return d
}

func TestDemo(t *testing.T) {
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 4, MaxPolys: 8})
	last := TileRef(m.encodePolyID(1, 2, 0))
	if st, _ := m.AddTile(tile(t, 0), last); StatusFailed(st) {
		t.Fatal(st)
	}
	for i := int32(1); i < 4; i++ {
		if st, _ := m.AddTile(tile(t, i), 0); StatusFailed(st) {
			t.Fatal("no free slot for tile", i, st)
		}
	}
}
'''
