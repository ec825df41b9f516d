id='C24-conn'
property='C24'
pkg='detour'
needs='two off-mesh connections of which the first starts outside the tile'
breaks='the radius of a stored connection is taken from another connection when an earlier one is not stored'
edits=[('detour/navmeshcreate.go','con.Rad = params.OffMeshConRad[i]','con.Rad = params.OffMeshConRad[n]')]
P='''
import (
	"testing"
)

func vparams() *NavMeshCreateParams {
	return &NavMeshCreateParams{
		Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 1,
		Polys:     []uint16{0, 1, 2, 3, 0xffff, 0xffff, 0x8000, 0x8001, 0x8002, 0x8003, 0, 0},
		PolyFlags: []uint16{1}, PolyAreas: []uint8{0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1, WalkableClimb: 1,
		OffMeshConVerts: []float32{9, 0, 1, 2, 0, 1, 1, 0, 1, 3, 0, 4}, OffMeshConRad: []float32{0.5, 0.75},
		OffMeshConFlags: []uint16{1, 2}, OffMeshConAreas: []uint8{3, 4}, OffMeshConDir: []uint8{0, 1}, OffMeshConCount: 2,
	}
}

func vtile(t *testing.T) *MeshTile {
	d, err := CreateNavMeshData(vparams())
	if err != nil {
		t.Fatal(err)
	}
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 2, MaxPolys: 8})
	st, ref := m.AddTile(d, 0)
	if StatusFailed(st) {
		t.Fatal(st)
	}
	return m.TileByRef(ref)
}
'''
test=P+'''
func TestDemo(t *testing.T) {
	tile := vtile(t)
	if len(tile.OffMeshCons) != 1 || tile.OffMeshCons[0].Rad != 0.75 {
		t.Fatalf("%v", tile.OffMeshCons)
	}
}
'''
