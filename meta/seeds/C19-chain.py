id='C19-chain'; property='C19'; pkg='recast'
needs='three or more different vertices whose positions share a hash bucket'
breaks='new vertices are linked behind the head of the bucket chain without keeping the rest of the chain, so earlier vertices of that bucket are forgotten and duplicated'
edits=[('recast/mesh.go','''	nextVert[i] = firstVert[bucket]
	firstVert[bucket] = i

	return uint16(i)''','''	nextVert[i] = -1
	if head := firstVert[bucket]; head == -1 || verts[head*3] == x && verts[head*3+2] == z {
		nextVert[i] = head
		firstVert[bucket] = i
	} else {
		nextVert[head] = i
	}

	return uint16(i)''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	b := map[int32][][2]uint16{}
	var c [][2]uint16
	for x := 0; x < 300 && c == nil; x++ {
		for z := 0; z < 300; z++ {
			k := computeVertexHash(int32(x), 0, int32(z))
			b[k] = append(b[k], [2]uint16{uint16(x), uint16(z)})
			if len(b[k]) == 3 {
				c = b[k]
				break
			}
		}
	}
	verts, next, first := make([]uint16, 30), make([]int32, 10), make([]int32, VERTEX_BUCKET_COUNT)
	for i := range first {
		first[i] = -1
	}
	var nv int32
	for r := 0; r < 2; r++ {
		for i, p := range c {
			if got := addVertex(p[0], 5, p[1], verts, first, next, &nv); int(got) != i {
				t.Fatalf("round %d: vertex %d stored as %d", r, i, got)
			}
		}
	}
}
'''
