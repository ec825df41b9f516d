id='C31-portalcut'; property='C31'; pkg='detour'
needs='a link across a tile border that is cut down at one end only'
breaks='a portal that is shortened at one end only is reported at its full length'
edits=[('detour/query.go','''		if link.BMin != 0 || link.BMax != 255 {
			s := float32(1.0 / 255.0)''','''		if link.BMin != 0 && link.BMax != 255 {
			s := float32(1.0 / 255.0)''')]
test='''
import (
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

func TestDemo(t *testing.T) {
	tile := &MeshTile{Verts: []float32{0, 0, 0, 0, 0, 255, 9, 0, 9}, Links: []Link{{Ref: 7, Next: nullLink, Edge: 0, Side: 4, BMin: 0, BMax: 51}}}
	tile.Polys = []Poly{{FirstLink: 0, VertCount: 3, Verts: [VertsPerPolygon]uint16{0, 1, 2}}}
	o := &Poly{FirstLink: nullLink, VertCount: 3}
	l, r := d3.NewVec3(), d3.NewVec3()
	st := (&NavMeshQuery{}).portalPoints8(3, &tile.Polys[0], tile, 7, o, tile, l, r)
	if st != Success || l[2] != 0 || r[2] < 50 || r[2] > 52 {
		t.Fatal(st, l, r)
	}
}
'''
