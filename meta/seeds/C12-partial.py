id='C12-partial'; property='C12'; pkg='detour'
needs='a sliced path finalized along an existing corridor with a buffer shorter than the corridor'
breaks='finalizing along an existing path forgets to mark a path that was cut off'
edits=[('detour/query.go','''				path[n] = node[0].ID
				n++
				if n >= maxPath && next != nil {
					status = BufferTooSmall
				}
			}

			if (status & StatusDetailMask) != 0 {
				q.query.status |= status & StatusDetailMask
				break
			}
''','''				path[n] = node[0].ID
				n++
				if n >= maxPath {
					break
				}
			}

			if (status & StatusDetailMask) != 0 {
				q.query.status |= status & StatusDetailMask
				break
			}
''')]
test='''
import (
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh1.bin")
	if err != nil {
		t.Fatal(err)
	}
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	ext := d3.NewVec3XYZ(2, 4, 2)
	_, a, ap := q.FindNearestPoly(d3.NewVec3XYZ(37.298489, -1.776901, 11.652311), ext, f)
	_, b, bp := q.FindNearestPoly(d3.NewVec3XYZ(42.457218, 7.797607, 17.778244), ext, f)
	full := make([]PolyRef, 100)
	n, st := q.FindPath(a, b, ap, bp, f, full)
	if st != Success || n < 3 {
		t.Fatal(n, st)
	}
	for room := 1; room <= n; room++ {
		if st := q.InitSlicedFindPath(a, b, ap, bp, f, 0); st != InProgress {
			t.Fatal(st)
		}
		for StatusInProgress(q.UpdateSlicedFindPath(8, nil)) {
		}
		path := make([]PolyRef, room)
		m, st := q.FinalizeSlicedFindPathPartial(full[:n], n, path, room)
		if m != room || (st&BufferTooSmall != 0) != (room < n) {
			t.Fatalf("room for %d of %d: %d entries, %#x", room, n, m, st)
		}
	}
}
'''
