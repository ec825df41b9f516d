id='C22-sharededge'; property='C22'; pkg='recast'
needs='two consecutive triangles that start with the same directed edge but have different slopes'
breaks='the slope of the previous triangle is reused for a triangle that shares its first two vertex indices, so a wall following a floor on the same edge is marked walkable'
edits=[('recast/recast.go','''	var norm [3]float32
	for i := int32(0); i < nt; i++ {
		tri := tris[i*3:]
		calcTriNormal(verts[tri[0]*3:], verts[tri[1]*3:], verts[tri[2]*3:], norm[:])
		// Check if the face is walkable.
		if norm[1] > walkableThr {
''','''	var norm [3]float32
	a, b := int32(-1), int32(-1)
	for i := int32(0); i < nt; i++ {
		tri := tris[i*3:]
		if tri[0] != a || tri[1] != b {
			calcTriNormal(verts[tri[0]*3:], verts[tri[1]*3:], verts[tri[2]*3:], norm[:])
			a, b = tri[0], tri[1]
		}
		// Check if the face is walkable.
		if norm[1] > walkableThr {
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	verts := []float32{0, 0, 0, 0, 0, 1, 1, 0, 0, 0, -1, 0}
	tris := []int32{0, 1, 2, 0, 1, 3}
	areas := []uint8{0, 0}
	MarkWalkableTriangles(nil, 45, verts, 4, tris, 2, areas)
	if areas[0] != WalkableArea || areas[1] != 0 {
		t.Fatalf("areas %v", areas)
	}
}
'''
