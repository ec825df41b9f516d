id='C03-reinit'
property='C03'
pkg='detour'
needs='a navigation mesh that is initialised a second time with the same position index size while tiles are stored in it'
breaks='the position index of the earlier use survives, so positions of the new mesh are reported occupied by tiles of the old one'
edits=[('detour/mesh.go','''	m.posLookup = make([]*MeshTile, m.TileLUTSize)
''','''	if int32(len(m.posLookup)) != m.TileLUTSize {
		m.posLookup = make([]*MeshTile, m.TileLUTSize)
	}
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	p := NavMeshParams{MaxTiles: 8, MaxPolys: 16}
	var m NavMesh
	m.Init(&p)
	tl := m.nextFree
	m.nextFree = tl.Next
	tl.Next = nil
	tl.Header = &MeshHeader{X: 2, Y: 3}
	m.posLookup[computeTileHash(2, 3, m.TileLUTMask)] = tl
	m.Init(&p)
	if m.TileAt(2, 3, 0) != nil {
		t.Fatal("a freshly initialised mesh holds a tile")
	}
}
'''
