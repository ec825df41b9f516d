id='C20-touch'; property='C20'; pkg='recast'
needs='a segment whose second end point lies on the line of the other segment (touching only), asked of the strict intersection test'
breaks='the strict intersection test forgets one of the four improper cases, so a touching pair counts as a proper crossing'
edits=[('recast/contour.go','''		collinear(c, d, a) || collinear(c, d, b) {''','''		collinear(c, d, a) {''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	p := func(x, z int32) []int32 { return []int32{x, 0, z, 0} }
	n := 0
	pts := [][]int32{p(0, 0), p(4, 0), p(2, 2), p(2, 0), p(2, -2)}
	for _, a := range pts {
		for _, b := range pts {
			for _, c := range pts {
				for _, d := range pts {
					if intersectProp(a, b, c, d) {
						n++
						touch := area2(a, b, c) == 0 || area2(a, b, d) == 0 || area2(c, d, a) == 0 || area2(c, d, b) == 0
						if touch {
							t.Fatal("touching segments reported as crossing", a, b, c, d)
						}
					}
				}
			}
		}
	}
	if n == 0 {
		t.Fatal("no crossing found")
	}
}
'''
