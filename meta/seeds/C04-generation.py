id='C04-generation'
property='C04'
pkg='detour'
needs='a slot refilled and emptied until its generation counter wraps around'
breaks='the generation of a slot becomes 0, so that its tile gets a reference that means "none" and cannot be removed'
edits=[('detour/mesh.go','''	tile.Salt = (tile.Salt + 1) & ((1 << m.saltBits) - 1)
	if tile.Salt == 0 {
		tile.Salt++
	}
''','''	if tile.Salt++; tile.Salt == 0 {
		tile.Salt++
	}
	tile.Salt &= (1 << m.saltBits) - 1
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	p := &NavMeshCreateParams{
		Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 1,
		Polys: []uint16{0, 1, 2, 3, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff},
		PolyFlags: []uint16{1}, PolyAreas: []uint8{0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1,
	}
	d, err := CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	var m NavMesh
	if st := m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 1 << 14, MaxPolys: 1 << 8}); StatusFailed(st) {
		t.Fatal(st)
	}
	for i := 0; i < 2000; i++ {
		st, r := m.AddTile(d, 0)
		if StatusFailed(st) || m.decodePolyIDSalt(PolyRef(r)) == 0 {
			t.Fatal(i, st, r)
		}
		if _, st := m.RemoveTile(r); StatusFailed(st) {
			t.Fatal(i, st)
		}
	}
}
'''
