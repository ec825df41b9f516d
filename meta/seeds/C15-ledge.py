id='C15-ledge'; property='C15'; pkg='recast'
needs='spans in the upper half of the height range'
breaks='the open space above a column is taken to end at half the height range, so ledges above it are kept'
edits=[('recast/filter.go','''	MAX_HEIGHT := 0xffff

	// Mark border spans.''','''	MAX_HEIGHT := int(^uint16(0) >> 1)

	// Mark border spans.''')]
test='''
import "testing"

var base uint16

func TestDemo(t *testing.T) {
	run := func(left, right uint16) uint8 {
		hf := NewHeightfield(3, 3, []float32{0, 0, 0}, []float32{3, 3, 3}, 1, 1)
		for y := int32(0); y < 3; y++ {
			for x := int32(0); x < 3; x++ {
				top := uint16(20)
				if x == 0 {
					top = left
				} else if x == 2 {
					top = right
				}
				hf.addSpan(x, y, 0, base+top, 1, 1)
			}
		}
		FilterLedgeSpans(NewBuildContext(false), 4, 4, hf)
		return hf.Spans[4].area
	}
	if run(20, 20) != 1 || run(18, 22) != 1 || run(16, 20) != 1 {
		t.Fatal("even ground cleared")
	}
	if run(15, 20) != 0 || run(20, 15) != 0 {
		t.Fatal("a drop of 5 kept")
	}
	base = 40000
	if run(20, 20) != 1 {
		t.Fatal("even high ground cleared")
	}
	if run(15, 20) != 0 || run(20, 15) != 0 {
		t.Fatal("a drop of 5 kept on high ground")
	}
}
'''
