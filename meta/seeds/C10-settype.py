id='C10-settype'; property='C10'; pkg='detour'
needs='a polygon whose area id is 32 or more gets its type changed'
breaks='SetType keeps only five bits of the area id'
edits=[('detour/poly.go','(p.AreaAndType & 0x3f) | (t << 6)','(p.AreaAndType & 0x1f) | (t << 6)')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	var p Poly
	p.SetArea(40)
	p.SetType(1)
	if p.Area() != 40 {
		t.Fatal(p.Area())
	}
}
'''
