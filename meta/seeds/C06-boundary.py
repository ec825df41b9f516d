id='C06-boundary'
property='C06'
pkg='detour'
needs='a stream that ends exactly between two tile records'
breaks='a stream that ends where a tile record should begin is taken as complete, so a mesh with tiles missing is returned without an error'
edits=[('detour/mesh.go','''		err = binary.Read(r, binary.LittleEndian, &tileHdr)
		if err != nil {
			return nil, err
		}
''','''		err = binary.Read(r, binary.LittleEndian, &tileHdr)
		if err == io.EOF {
			// no more tiles
			break
		}
		if err != nil {
			return nil, err
		}
''')]
COMMON='''
import (
	"bytes"
	"testing"
)

func vmesh(t *testing.T) []byte {
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 4, MaxPolys: 8})
	for x := int32(0); x < 3; x++ {
		d, err := CreateNavMeshData(&NavMeshCreateParams{
			TileX: x, Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 1,
			Polys: []uint16{0, 1, 2, 3, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff},
			PolyFlags: []uint16{1}, PolyAreas: []uint8{0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1,
		})
		if err != nil {
			t.Fatal(err)
		}
		m.AddTile(d, 0)
	}
	var b bytes.Buffer
	if err := m.ToWriter(&b); err != nil {
		t.Fatal(err)
	}
	if _, err := Decode(bytes.NewReader(b.Bytes())); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}
'''
test=COMMON+'''
func TestDemo(t *testing.T) {
	b := vmesh(t)
	rec := (len(b) - 40) / 3
	for i := 0; i < 3; i++ {
		if _, err := Decode(bytes.NewReader(b[:40+i*rec])); err == nil {
			t.Fatalf("stream with %d of 3 tiles accepted", i)
		}
	}
}
'''
