id='C01-salt-mask'; property='C01'; pkg='detour'
needs='a reference decoded through the single-field salt decoder in a mesh whose salt field is wider than its tile field'
breaks='decodePolyIDSalt uses the tile field width to mask the salt, so salts that need more bits than the tile field are truncated'
edits=[('detour/mesh.go','''	saltMask := (PolyRef(1) << m.saltBits) - 1
	return uint32((ref >> (m.polyBits + m.tileBits)) & saltMask)''','''	saltMask := (PolyRef(1) << (m.tileBits + m.saltBits/4)) - 1
	return uint32((ref >> (m.polyBits + m.tileBits)) & saltMask)''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	m := NavMesh{tileBits: 7, polyBits: 13, saltBits: 12}
	ref := m.encodePolyID(3001, 5, 77)
	if s := m.decodePolyIDSalt(ref); s != 3001 {
		t.Fatalf("salt %d", s)
	}
}
'''
