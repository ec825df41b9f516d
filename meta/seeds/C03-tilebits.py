id="C03-tilebits"
property='C03'
pkg='detour'
needs='a mesh with exactly one tile slot more than a power of two'
breaks='the bits reserved for tiles are computed from the highest slot instead of the number of slots, so the last slot does not fit in a reference'
edits=[('detour/mesh.go','''	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxTiles)))
''','''	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(m.MaxTiles - m.MaxTiles&1)))
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []uint32{3, 5, 6, 7, 9, 17} {
		p := NavMeshParams{MaxTiles: n, MaxPolys: 16}
		var m NavMesh
		m.Init(&p)
		var salt, it, ip uint32
		m.DecodePolyID(m.encodePolyID(1, n-1, 5), &salt, &it, &ip)
		if salt != 1 || it != n-1 || ip != 5 {
			t.Fatalf("%d slots: slot %d reads back as %d, salt %d", n, n-1, it, salt)
		}
	}
}
'''
