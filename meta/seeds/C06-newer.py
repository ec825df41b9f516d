id='C06-newer'
property='C06'
pkg='detour'
needs='a file whose version is newer than the one the code reads'
breaks='only older versions are refused; a file of a later version is read as if it had the present layout'
edits=[('detour/mesh.go','	if hdr.Version != navMeshSetVersion {','	if hdr.Version < navMeshSetVersion {')]
COMMON='''
import (
	"bytes"
	"testing"
)

func vmesh(t *testing.T) []byte {
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 4, MaxPolys: 8})
	for x := int32(0); x < 3; x++ {
		d, err := CreateNavMeshData(&NavMeshCreateParams{
			TileX: x, Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 1,
			Polys: []uint16{0, 1, 2, 3, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff},
			PolyFlags: []uint16{1}, PolyAreas: []uint8{0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1,
		})
		if err != nil {
			t.Fatal(err)
		}
		m.AddTile(d, 0)
	}
	var b bytes.Buffer
	if err := m.ToWriter(&b); err != nil {
		t.Fatal(err)
	}
	if _, err := Decode(bytes.NewReader(b.Bytes())); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}
'''
test=COMMON+'''
func TestDemo(t *testing.T) {
	b := vmesh(t)
	b[4]++
	if _, err := Decode(bytes.NewReader(b)); err == nil {
		t.Fatal("version accepted")
	}
}
'''
