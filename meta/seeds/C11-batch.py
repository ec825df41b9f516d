id='C11-batch'
property='C11'
pkg='detour'
needs='a box that meets more than 32 polygons of one tile'
breaks='the last polygon of every full batch of a box query is dropped, so a polygon that overlaps the box is not reported'
edits=[('detour/query.go','''					if n == batchSize-1 {
						query.process(tile, polys, polyRefs, batchSize)
						n = 0
					} else {
						n++
					}
				}
			}

			if overlap''','''					if n == batchSize-1 {
						query.process(tile, polys, polyRefs, n)
						n = 0
					} else {
						n++
					}
				}
			}

			if overlap''')]
test='''
import (
	"testing"
)

func TestDemo(t *testing.T) {
	const k = 7
	p := &NavMeshCreateParams{Nvp: 6, Cs: 1, Ch: 1, BMax: [3]float32{k, 1, k}, WalkableHeight: 1, BuildBvTree: true}
	for x := 0; x <= k; x++ {
		for z := 0; z <= k; z++ {
			p.Verts = append(p.Verts, uint16(x), 0, uint16(z))
			p.VertCount++
		}
	}
	for x := 0; x < k; x++ {
		for z := 0; z < k; z++ {
			v := uint16(x*(k+1) + z)
			p.Polys = append(p.Polys, v, v+1, v+k+2, v+k+1, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff)
			p.PolyFlags = append(p.PolyFlags, 1)
			p.PolyAreas = append(p.PolyAreas, 0)
			p.PolyCount++
		}
	}
	d, err := CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	var m NavMesh
	m.Init(&NavMeshParams{TileWidth: k, TileHeight: k, MaxTiles: 2, MaxPolys: 64})
	if st, _ := m.AddTile(d, 0); StatusFailed(st) {
		t.Fatal(st)
	}
	_, q := NewNavMeshQuery(&m, 16)
	buf := make([]PolyRef, 100)
	n, _ := q.queryPolygons6([]float32{3, 0, 3}, []float32{9, 9, 9}, NewStandardQueryFilter(), buf, 100)
	if n != k*k {
		t.Fatalf("%d polygons of %d", n, k*k)
	}
}
'''
