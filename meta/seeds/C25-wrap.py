id='C25-wrap'; property='C25'; pkg='recast'
needs='two polygons sharing an edge that is the closing edge of both, one of them filling its row, and the other one listed first from the higher vertex'
breaks='the side under which the second polygon stores its neighbour is reduced modulo the row width less one, so the last side of a full polygon is filed under its first'
edits=[('recast/mesh.go','''						edge.polyEdge[1] = uint16(j)
''','''						edge.polyEdge[1] = uint16(j)
						if next := j + 1; next == vertsPerPoly && edge.vert[0] == 0 {
							edge.polyEdge[1] = 0
						}
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	// two triangles around the edge between vertices 0 and 5, closing edge of the second
	polys := []uint16{0, 5, 7, 0xffff, 0xffff, 0xffff, 0, 6, 5, 0xffff, 0xffff, 0xffff}
	if !buildMeshAdjacency(polys, 2, 8, 3) {
		t.Fatal("failed")
	}
	want := []uint16{0, 5, 7, 1, 0xffff, 0xffff, 0, 6, 5, 0xffff, 0xffff, 0}
	for i := range want {
		if polys[i] != want[i] {
			t.Fatalf("%v, want %v", polys, want)
		}
	}
}
'''
