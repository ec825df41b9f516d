id='C18-nullneighbour'; property='C18'; pkg='recast'
needs='open spans made unwalkable after the open field was built (a marked volume of area 0), next to walkable ones'
breaks='spans next to an unwalkable but linked span are no longer border spans, so erosion around marked obstacles is one step short'
edits=[('recast/area.go','''							if chf.Areas[nidx] != nullArea {
								nc++''','''							if nidx >= 0 {
								nc++''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	hf := NewHeightfield(9, 9, []float32{0, 0, 0}, []float32{9, 9, 9}, 1, 1)
	for i := int32(0); i < 81; i++ {
		hf.addSpan(i%9, i/9, 0, 1, 1, 1)
	}
	var chf CompactHeightfield
	ctx := NewBuildContext(false)
	BuildCompactHeightfield(ctx, 3, 1, hf, &chf)
	MarkConvexPolyArea(ctx, []float32{4, 0, 4, 5, 0, 4, 5, 0, 5, 4, 0, 5}, 4, 0, 3, 0, &chf)
	ErodeWalkableArea(ctx, 1, &chf)
	if chf.Areas[4*9+3] != 0 || chf.Areas[4*9+4] != 0 || chf.Areas[4*9+5] != 0 {
		t.Fatal("neighbours of an unwalkable span were not eroded")
	}
}
'''
