id='C24-dtl'
property='C24'
pkg='detour'
needs='a detail mesh whose vertices start away from where the previous ones end (any gap or other order in the source)'
breaks='extra detail vertices are copied from a running position in the source instead of the place the source names'
edits=[('detour/navmeshcreate.go','''				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
''','''				if i2 > 0 && vb < params.DetailMeshes[(i2-1)*4] {
					// already copied with an earlier mesh
					start = 3 * nv
				}
				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
''')]
test='''
import (
	"testing"
)

func TestDemo(t *testing.T) {
	p := &NavMeshCreateParams{
		Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 3,
		PolyFlags: []uint16{1, 1, 1}, PolyAreas: []uint8{0, 0, 0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1,
		DetailMeshes: []int32{8, 4, 0, 0, 4, 4, 0, 0, 0, 4, 0, 0},
	}
	for i := 0; i < 3; i++ {
		p.Polys = append(p.Polys, 0, 1, 2, 0xffff, 0xffff, 0xffff, 0x800f, 0x800f, 0x800f, 0, 0, 0)
	}
	for i := 0; i < 12; i++ {
		p.DetailVerts = append(p.DetailVerts, float32(i), 0, 0)
		p.DetailVertsCount++
	}
	d, err := CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 2, MaxPolys: 8})
	st, ref := m.AddTile(d, 0)
	if StatusFailed(st) {
		t.Fatal(st)
	}
	tl := m.TileByRef(ref)
	for i, want := range []float32{11, 7, 3} {
		if g := tl.DetailVerts[3*tl.DetailMeshes[i].VertBase]; g != want {
			t.Fatalf("detail vertex of polygon %d: %v, want %v", i, g, want)
		}
	}
}
'''
