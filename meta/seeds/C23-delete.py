id='C23-delete'; property='C23'; pkg='recast'
needs='deleting a volume other than the last one when the last one has more corners than the deleted one'
breaks='deleting moves only as many corners as the deleted volume had, so a last volume with more corners loses some'
edits=[('recast/inputgeom.go','''	ig.volumes[i] = ig.volumes[ig.volumeCount]
''','''	last := &ig.volumes[ig.volumeCount]
	vol := &ig.volumes[i]
	n := vol.NVerts * 3
	copy(vol.Verts[:n], last.Verts[:])
	vol.HMin, vol.HMax, vol.Area, vol.NVerts = last.HMin, last.HMax, last.Area, last.NVerts
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	ig := new(InputGeom)
	ig.AddConvexVolume([]float32{1, 2, 3, 4, 5, 6, 7, 8, 9}, 0, 1, 3)
	ig.AddConvexVolume([]float32{11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}, 2, 3, 4)
	ig.DeleteConvexVolume(0)
	v := ig.ConvexVolumes()[0]
	if v.NVerts != 4 || v.Verts[9] != 20 || v.Verts[11] != 22 || v.Area != 4 {
		t.Fatal("remaining volume damaged", v.NVerts, v.Verts)
	}
}
'''
