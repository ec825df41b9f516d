id='C12-wall'; property='C12'; pkg='detour'
needs='a ray that is cast through more polygons than its buffer holds and ends at a wall'
breaks='a ray that hits a wall reports all polygons it crossed, also the ones there was no room for'
edits=[('detour/query.go','''		n                    int
	)

	lastPos = d3.NewVec3()''','''		n, crossed           int
	)

	lastPos = d3.NewVec3()'''),
('detour/query.go','''		// Store visited polygons.
		if n < hit.MaxPath {''','''		// Store visited polygons.
		crossed++
		if n < hit.MaxPath {'''),
('detour/query.go','''			hit.HitNormal.Normalize()

			hit.PathCount = n
''','''			hit.HitNormal.Normalize()

			hit.PathCount = crossed
''')]
test='''
import (
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh1.bin")
	if err != nil {
		t.Fatal(err)
	}
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	ext := d3.NewVec3XYZ(2, 4, 2)
	_, a, ap := q.FindNearestPoly(d3.NewVec3XYZ(37.298489, -1.776901, 11.652311), ext, f)
	seen := false
	for _, d := range [][2]float32{{100, 0}, {-100, 0}, {0, 100}, {0, -100}, {70, 70}, {-70, 70}, {70, -70}, {-70, -70}} {
		end := d3.NewVec3XYZ(ap[0]+d[0], ap[1], ap[2]+d[1])
		full := RaycastHit{Path: make([]PolyRef, 200), MaxPath: 200}
		if st := q.Raycast(a, ap, end, f, 0, &full, 0); st != Success {
			t.Fatal(st)
		}
		if full.PathCount < 2 {
			continue
		}
		seen = true
		one := RaycastHit{Path: make([]PolyRef, 1), MaxPath: 1}
		st := q.Raycast(a, ap, end, f, 0, &one, 0)
		if one.PathCount != 1 || st != Success|BufferTooSmall {
			t.Fatalf("room for 1 of %d: %d entries, %#x", full.PathCount, one.PathCount, st)
		}
	}
	if !seen {
		t.Fatal("no ray leaves its polygon")
	}
}
'''
