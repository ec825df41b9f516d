id='C09-unconnect'; property='C09'; pkg='detour'
needs='a polygon whose list holds two links in a row that lead to the disconnected tile, after one that does not'
breaks='after removing a link in the middle of a list, unconnectLinks resumes from the freed link, so the next matching link is unlinked from the wrong place'
edits=[('detour/mesh.go','''				freeLink(tile, j)
				j = nj
			} else {''','''				freeLink(tile, j)
				if pj != nullLink {
					pj = j
				}
				j = nj
			} else {''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	m := &NavMesh{polyBits: 8, tileBits: 4, saltBits: 20, MaxTiles: 3, Tiles: make([]MeshTile, 3)}
	for i := range m.Tiles {
		m.Tiles[i].Salt = 1
		m.Tiles[i].Header = &MeshHeader{PolyCount: 1}
	}
	tile := &m.Tiles[0]
	tile.Polys = make([]Poly, 1)
	for i, to := range []uint32{2, 1, 1, 2} {
		tile.Links = append(tile.Links, Link{Ref: m.encodePolyID(1, to, 0), Next: uint32(i + 1)})
	}
	tile.Links[3].Next = nullLink
	tile.LinksFreeList = nullLink
	m.unconnectLinks(tile, &m.Tiles[1])
	var got []uint32
	for l := tile.Polys[0].FirstLink; l != nullLink && len(got) < 9; l = tile.Links[l].Next {
		got = append(got, l)
	}
	if len(got) != 2 || got[0] != 0 || got[1] != 3 {
		t.Fatalf("links left: %v", got)
	}
}
'''
