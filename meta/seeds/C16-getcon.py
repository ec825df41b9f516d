id='C16-getcon'; property='C16'; pkg='recast'
needs='a connection to a layer numbered 32 or more (columns with more than 32 open spans)'
breaks='GetCon keeps only five bits of a connection that is not the not-connected marker'
edits=[('recast/recast.go','	return int32((s.Con >> shift) & 0x3f)','''	con := int32((s.Con >> shift) & 0x3f)
	if con != notConnected {
		con &= 0x1f
	}
	return con''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	var s CompactSpan
	SetCon(&s, 0, 33)
	if v := GetCon(&s, 0); v != 33 {
		t.Fatal(v)
	}
}
'''
