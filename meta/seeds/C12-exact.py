id='C12-exact'; property='C12'; pkg='detour'
needs='a path that fills the buffer exactly'
breaks='a complete path that happens to use the whole buffer is reported as truncated'
edits=[('detour/query.go','''	if length > len(path) {
		return pathCount, Success | BufferTooSmall
	}

	return pathCount, Success
''','''	st = Success
	if pathCount == len(path) {
		st |= BufferTooSmall
	}
	return pathCount, st
''')]
test='''
import (
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh1.bin")
	if err != nil {
		t.Fatal(err)
	}
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	ext := d3.NewVec3XYZ(2, 4, 2)
	_, a, ap := q.FindNearestPoly(d3.NewVec3XYZ(37.298489, -1.776901, 11.652311), ext, f)
	_, b, bp := q.FindNearestPoly(d3.NewVec3XYZ(42.457218, 7.797607, 17.778244), ext, f)
	path := make([]PolyRef, 100)
	n, st := q.FindPath(a, b, ap, bp, f, path)
	if st != Success || n < 2 {
		t.Fatal(n, st)
	}
	if n2, st := q.FindPath(a, b, ap, bp, f, path[:n]); n2 != n || st != Success {
		t.Fatalf("room for all %d: %d, %#x", n, n2, st)
	}
	if n2, st := q.FindPath(a, b, ap, bp, f, path[:n-1]); n2 != n-1 || st != Success|BufferTooSmall {
		t.Fatalf("room for all but one: %d, %#x", n2, st)
	}
}
'''
