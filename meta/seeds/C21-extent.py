id='C21-extent'
property='C21'
pkg='recast'
needs='a triangle in a chunk whose extent exceeds the ones listed before it on both sides of an axis'
breaks='the bounding rectangle of a chunk no longer covers the triangles listed under it, so queries can miss them'
edits=[('recast/chunkytrimesh.go','''		if it.bmin[1] < bmin[1] {
			bmin[1] = it.bmin[1]
		}

		if it.bmax[0] > bmax[0] {
			bmax[0] = it.bmax[0]
		}
		if it.bmax[1] > bmax[1] {
			bmax[1] = it.bmax[1]
		}
''','''		if it.bmax[0] > bmax[0] {
			bmax[0] = it.bmax[0]
		}
		if it.bmin[1] < bmin[1] {
			bmin[1] = it.bmin[1]
		} else if it.bmax[1] > bmax[1] {
			bmax[1] = it.bmax[1]
		}
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	verts := []float32{0, 0, 0, 1, 0, 0, 1, 0, 1, -4, 0, -5, 6, 0, -5, 6, 0, 9}
	tris := []int32{0, 1, 2, 3, 4, 5}
	var cm ChunkyTriMesh
	createChunkyTriMesh(verts, tris, 2, 4, &cm)
	ids := make([]int32, 4)
	if n := cm.ChunksOverlappingRect([2]float32{5, 8}, [2]float32{6, 9}, ids); n != 1 {
		t.Fatalf("the triangle under the rectangle was not found: %d chunks", n)
	}
}
'''
