id='C05-emptytile'
property='C05'
pkg='detour'
needs='a mesh saved after one of its tiles was removed'
breaks='the writer skips slots by their contents while the count in the header goes up to the last used slot, so the file announces more tiles than it holds'
edits=[('detour/mesh.go','''		if m.Tiles[i].DataSize == 0 {
			continue
		}
		header.NumTiles++
	}
''','''		if m.Tiles[i].DataSize != 0 {
			header.NumTiles = uint32(i + 1)
		}
	}
''')]
test='''
import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: 4, TileHeight: 4, MaxTiles: 4, MaxPolys: 8})
	var refs []TileRef
	for x := int32(0); x < 3; x++ {
		d, err := CreateNavMeshData(&NavMeshCreateParams{
			TileX: x, Verts: []uint16{0, 0, 0, 0, 0, 4, 4, 0, 4, 4, 0, 0}, VertCount: 4, Nvp: 6, PolyCount: 1,
			Polys: []uint16{0, 1, 2, 3, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff},
			PolyFlags: []uint16{1}, PolyAreas: []uint8{0}, Cs: 1, Ch: 1, BMax: [3]float32{4, 1, 4}, WalkableHeight: 1,
		})
		if err != nil {
			t.Fatal(err)
		}
		_, r := m.AddTile(d, 0)
		refs = append(refs, r)
	}
	m.RemoveTile(refs[1])
	var b bytes.Buffer
	if err := m.ToWriter(&b); err != nil {
		t.Fatal(err)
	}
	if _, err := Decode(&b); err != nil {
		t.Fatal(err)
	}
}
'''
