id='C17-layers'; property='C17'; pkg='recast'
needs='a column with at least 63 open spans whose topmost linkable one is the only match for a neighbouring span'
breaks='the highest storable neighbour number is treated as too high, so a legal link is dropped'
edits=[('recast/heightfield.go','''							if lidx < 0 || lidx > MAX_LAYERS {''','''							if lidx < 0 || lidx >= MAX_LAYERS {''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	hf := NewHeightfield(2, 1, []float32{0, 0, 0}, []float32{1, 1, 1}, 1, 1)
	for i := 0; i < 63; i++ {
		hf.addSpan(0, 0, uint16(10*i), uint16(10*i+1), 1, 1)
	}
	hf.addSpan(1, 0, 620, 621, 1, 1)
	var chf CompactHeightfield
	BuildCompactHeightfield(NewBuildContext(false), 3, 1, hf, &chf)
	if c := GetCon(&chf.Spans[chf.Cells[1].Index], 0); c != 62 {
		t.Fatalf("link is %d", c)
	}
}
'''
