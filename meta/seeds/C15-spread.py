id='C15-spread'; property='C15'; pkg='recast'
needs='a walkable span with at least two unwalkable ones stacked above it, each within the climb height of the one below'
breaks='a span that was just made walkable lets the next one become walkable too, so walkability climbs past more than one obstacle'
edits=[('recast/filter.go','''				previousWalkable = walkable
''','''				previousWalkable = walkable || s.area != nullArea
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	hf := NewHeightfield(1, 1, []float32{0, 0, 0}, []float32{1, 1, 1}, 1, 1)
	hf.addSpan(0, 0, 0, 10, 7, 1)
	hf.addSpan(0, 0, 12, 13, 0, 1)
	hf.addSpan(0, 0, 15, 16, 0, 1)
	FilterLowHangingWalkableObstacles(NewBuildContext(false), 4, hf)
	s := hf.Spans[0]
	if s.area != 7 || s.next.area != 7 || s.next.next.area != 0 {
		t.Fatalf("areas are %d %d %d", s.area, s.next.area, s.next.next.area)
	}
}
'''
