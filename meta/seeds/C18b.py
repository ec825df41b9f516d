id='C18-topfloor'; property='C18'; pkg='recast'
needs='a span whose floor is exactly in the highest cell layer of the volume'
breaks='the top layer of a convex volume is not marked'
edits=[('recast/area.go','''	if maxx < 0 {
''','''	if maxx < 0 || maxy <= miny {
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	hf := NewHeightfield(3, 3, []float32{0, 0, 0}, []float32{3, 9, 3}, 1, 1)
	for i := int32(0); i < 9; i++ {
		hf.addSpan(i%3, i/3, 0, 5, 1, 1)
	}
	var chf CompactHeightfield
	ctx := NewBuildContext(false)
	BuildCompactHeightfield(ctx, 3, 1, hf, &chf)
	MarkConvexPolyArea(ctx, []float32{0, 0, 0, 3, 0, 0, 3, 0, 3, 0, 0, 3}, 4, 5.25, 5.75, 7, &chf)
	if chf.Areas[4] != 7 {
		t.Fatal("span within a flat volume not marked")
	}
}
'''
