id='C25-halfedges'; property='C25'; pkg='recast'
needs='a mesh whose polygons mostly have ascending vertex numbers and few shared edges, such as a row of separate triangles in a mesh of triangles'
breaks='room is reserved for half as many edges as there are polygon sides, on the grounds that two polygons share each; a mesh of mostly unshared edges overruns it'
edits=[('recast/mesh.go','''	edges := make([]*Edge, maxEdgeCount)
''','''	// an edge is recorded once for the two sides that share it
	edges := make([]*Edge, maxEdgeCount/2+vertsPerPoly)
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	const n = 40
	var polys []uint16
	for i := uint16(0); i < n; i++ {
		polys = append(polys, 3*i, 3*i+1, 3*i+2, 0xffff, 0xffff, 0xffff)
	}
	if !buildMeshAdjacency(polys, n, 3*n, 3) {
		t.Fatal("failed")
	}
	for i := 0; i < n; i++ {
		for j := 3; j < 6; j++ {
			if polys[6*i+j] != 0xffff {
				t.Fatal("border edge has a neighbour")
			}
		}
	}
}
'''
