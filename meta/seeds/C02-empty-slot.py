id='C02-empty-slot'; property='C02'; pkg='detour'
needs='a reference that names a free slot with its current salt (a tile that was removed and whose new generation is guessed, or a never used slot)'
breaks='TileByRef no longer is nil-safe in TileAndPolyByRef: an empty slot is accepted when the polygon number is 0'
edits=[('detour/mesh.go','''	if m.Tiles[it].Salt != salt || m.Tiles[it].Header == nil {
		return Failure | InvalidParam
	}
	if ip >= uint32(m.Tiles[it].Header.PolyCount) {
		return Failure | InvalidParam
	}
	*tile = &m.Tiles[it]''','''	if m.Tiles[it].Salt != salt {
		return Failure | InvalidParam
	}
	if hdr := m.Tiles[it].Header; hdr != nil && ip >= uint32(hdr.PolyCount) {
		return Failure | InvalidParam
	}
	if int(ip) >= len(m.Tiles[it].Polys) {
		*tile = &m.Tiles[it]
		return Success
	}
	*tile = &m.Tiles[it]''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	var m NavMesh
	if st := m.Init(&NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: 4, MaxPolys: 16}); StatusFailed(st) {
		t.Fatal(st)
	}
	var tile *MeshTile
	var poly *Poly
	if st := m.TileAndPolyByRef(m.encodePolyID(1, 2, 0), &tile, &poly); !StatusFailed(st) {
		t.Fatal("empty slot accepted")
	}
}
'''
