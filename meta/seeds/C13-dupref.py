id='C13-dupref'; property='C13'; pkg='detour'
needs='a straight path whose turning point coincides with the last stored point, so that the entry is updated instead of appended'
breaks='the stored polygon of a point that repeats the previous one stays that of the earlier visit: the flag is updated, the polygon is not'
edits=[('detour/query.go','''		if len(straightPathRefs) > 0 {
			straightPathRefs[*straightPathCount-1] = ref
		}
''','''		if len(straightPathRefs) > 0 && len(straightPathFlags) == 0 {
			straightPathRefs[*straightPathCount-1] = ref
		}
''')]
test='''
import (
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

func TestDemo(t *testing.T) {
	sp := []d3.Vec3{{1, 2, 3}, {0, 0, 0}}
	fl, rf := []uint8{StraightPathStart, 0}, []PolyRef{5, 0}
	n := 1
	(&NavMeshQuery{}).appendVertex(d3.Vec3{1, 2, 3}, 0, 9, sp, fl, rf, &n)
	if n != 1 || fl[0] != 0 || rf[0] != 9 {
		t.Fatal(n, fl, rf)
	}
}
'''
