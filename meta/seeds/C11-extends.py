id='C11-extends'
property='C11'
pkg='detour'
needs='a group of boxes in which the item with the lowest bottom, met after the first, also has the highest top'
breaks='an inner node of the tree does not contain a box below it, so a query that meets only that box skips it'
edits=[('detour/navmeshcreate.go','''		if it.BMax[1] > bmax[1] {
			bmax[1] = it.BMax[1]
		}
''','''		if it.BMax[1] > bmax[1] && it.BMin[1] >= bmin[1]+(it.BMax[1]-bmax[1])/64 {
			bmax[1] = it.BMax[1]
		}
''')]
test='''
import (
	"testing"
)

func TestDemo(t *testing.T) {
	items := []bvItem{
		{i: 0, BMin: [3]uint16{0, 5, 0}, BMax: [3]uint16{4, 9, 4}},
		{i: 1, BMin: [3]uint16{4, 0, 0}, BMax: [3]uint16{8, 200, 4}},
	}
	nodes := make([]BvNode, 4)
	var cur int32
	subdivide(items, 2, 0, 2, &cur, nodes)
	if nodes[0].BMax[1] != 200 || nodes[0].BMin[1] != 0 {
		t.Fatalf("root %v", nodes[0])
	}
}
'''
