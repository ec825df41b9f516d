exec(open('/verif/meta/seeds/C24-conn.py').read())
id='C24-corner'
needs='an off-mesh connection that ends exactly on the far z border of the tile'
breaks='an end point on the far z border is taken to lie inside the tile although the border belongs to the next one'
edits=[('detour/navmeshcreate.go','''	if pt[2] >= bmax[2] {
''','''	if pt[2] > bmax[2] {
''')]
test=P+'''
func TestDemo(t *testing.T) {
	tile := vtile(t)
	if len(tile.OffMeshCons) != 1 || tile.OffMeshCons[0].Side != 2 {
		t.Fatalf("%v", tile.OffMeshCons)
	}
}
'''
